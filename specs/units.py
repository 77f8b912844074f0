"""registry: which contract harness decides which property"""
import z3

DEFAULTS = dict(budget=100, timeout=8000, mem=6)
NATIVE_T = 2.0
SIM_T = 160.0
TRUSTED = [
    'gvc (this verification condition generator) and goto-cc as its C front end',
    'z3 and cvc5, and the positivity certificates of gvc',
    'the harness pre-conditions in /verif/specs (what a valid call and a well formed GA state are)',
    'signed integer arithmetic is checked for overflow only where the harness bounds it; conversions are exact within the type range',
    'floating point values are opaque: no property about rounding is claimed',
]


def dims(n, **kw):
    return [dict(ndim=d, **kw) for d in n]


def odometer(bv, bu, cnt, idx, rows, extra=None):
    """iteration idx of a strided walk is the mixed radix number with digits bv and units bu"""
    def inv(e):
        L = e.case('L')
        out = []
        i, n = getattr(e, idx), getattr(e, rows)
        tot = 0
        for j in range(1, L + 1):
            b, u, c = e.at(bv, j), e.at(bu, j), e.at(cnt, j)
            out += [0 <= b, b <= c - 1]
            tot = tot + b * u
        if L > 0:
            out.append(('def', i, tot, i < n))
            iw = 0
            for j in range(1, L + 1):
                iw = iw + e.g('wit_', j) * e.at(bu, j)
            for j in range(L, 0, -1):
                b, w = e.at(bv, j), e.g('wit_', j)
                up = [z3.And(e.at(bv, k) == e.g('wit_', k)) for k in range(j + 1, L + 1)]
                out += [('lemma', z3.And([i < n, i == iw] + up), b <= w), ('lemma', z3.And([i < n, i == iw] + up), b >= w)]
        if extra:
            out += extra(e, L, i)
        return out
    return inv


def rowindex(e, L):
    return e.g('irow_')


def pack_content(e, L, i):
    w = e.g('row_')
    p = e.at('packed_buffer', w)
    return [z3.Implies(rowindex(e, L) < i, p == e.g('want_'))]


def nonoverlap(bv, bu, st, scale=1):
    """rows of a strided section with non overlapping strides are disjoint"""
    def f(e, L, i, n):
        out = []
        c0 = e.at('count', 0) * scale
        d = [None] + [e.at(bv, j) for j in range(1, L + 1)]
        w = [None] + [e.g('wit_', j) for j in range(1, L + 1)]
        s = [None] + [e.at(st, j - (1 if scale == 1 else 0)) for j in range(1, L + 1)]
        c = [None] + [e.at('count', j) for j in range(1, L + 1)]
        live = i < n
        for j in range(1, L + 1):
            ext = c0
            for k in range(1, j + 1):
                ext = ext + (c[k] - 1) * s[k]
            for x in (d, w):
                out.append(('lemma', live, z3.Sum([x[k] * s[k] for k in range(1, j + 1)]) + c0 <= ext))
        tot = {0: z3.Sum([d[k] * s[k] for k in range(1, L + 1)]), 1: z3.Sum([w[k] * s[k] for k in range(1, L + 1)])}
        for j in range(L, 0, -1):
            hi = z3.And([live] + [d[k] == w[k] for k in range(j + 1, L + 1)])
            for (x, y, a, b) in ((d, w, 0, 1), (w, d, 1, 0)):
                low = z3.Sum([z3.IntVal(0)] + [x[k] * s[k] for k in range(1, j)])
                out.append(('lemma', z3.And(hi, x[j] < y[j]), x[j] * s[j] + s[j] <= y[j] * s[j]))
                out.append(('lemma', z3.And(hi, x[j] < y[j]), low + c0 <= s[j]))
                out.append(('lemma', z3.And(hi, x[j] < y[j]), tot[a] + c0 <= tot[b]))
        iw = e.g('irow_')
        out.append(('lemma', z3.And(live, i != iw), z3.Or(tot[0] + c0 <= tot[1], tot[1] + c0 <= tot[0])))
        return out
    return f


def memcopy_inv(e):
    """both odometers of a strided to strided copy; rows of the destination are disjoint; the witness byte is in place once its row has passed"""
    L, i, n, el = e.case('L'), e.i, e.n1dim, e.case('el')
    out = odometer('src_bvalue', 'src_bunit', 'count', 'i', 'n1dim')(e)
    same = []
    for j in range(1, L + 1):
        same.append(e.at('dst_bvalue', j) == e.at('src_bvalue', j))
    out = same + out + nonoverlap('dst_bvalue', 'dst_bunit', 'dst_stride', scale=el)(e, L, i, n)
    return out + [e.gat('D_', e.g('dneed_')) == e.g('old_'), z3.Implies(e.g('irow_') < i, e.gat('D_', e.g('doff_')) == e.g('want_'))]


def unpack_content(e, L, i):
    return nonoverlap('dst_bvalue', 'dst_bunit', 'dst_stride')(e, L, i, e.n1dim) + [e.at('dst', e.g('need_')) == e.g('old_'), z3.Implies(rowindex(e, L) < i, e.at('dst', e.g('off_')) == e.g('want_'))]


def patchodo(content=None):
    """iteration i of the row loop of a patch kernel is the mixed radix number with digits bvalue and units bunit"""
    def inv(e):
        nd = e.case('ndim')
        i, n = e.i, e.n1dim
        out, tot, iw = [], 0, 0
        for j in range(1, nd):
            b, u, c, w = e.at('bvalue', j), e.at('bunit', j), e.g('cnt_', j), e.g('wit_', j)
            out += [0 <= b, b <= c - 1]
            tot = tot + b * u
            iw = iw + w * u
        if nd > 1:
            out.append(('def', i, tot, i < n))
            for j in range(nd - 1, 0, -1):
                b, w = e.at('bvalue', j), e.g('wit_', j)
                up = [e.at('bvalue', k) == e.g('wit_', k) for k in range(j + 1, nd)]
                out += [('lemma', z3.And([i < n, i == iw] + up), b <= w), ('lemma', z3.And([i < n, i == iw] + up), b >= w)]
        if content:
            out += content(e, nd, i)
        return out
    return inv


GT = {0: 'i', 1: 'l', 2: 'f', 3: 'd', 4: 'c', 5: 'z'}


def fill_content(e, nd, i):
    """the row of the witness element is done once i has passed it; the element behind the last one is untouched"""
    T = GT[e.case('type')]
    out = inspan(e, nd, i)
    if T in 'ilfd':
        out.append(z3.Implies(e.g('irow_') < i, e.gat('g%s_' % T, e.g('off_')) == e.g('w%s_' % T)))
        out.append(e.gat('g%s_' % T, e.g('span_') + 1) == e.g('e%s_' % T))
    return out


def inspan(e, nd, i):
    """the current row lies inside the patch"""
    out = []
    F, tot, span = 1, 0, e.g('cnt_', 0) - 1
    for j in range(1, nd):
        F = F * e.g('ld_', j - 1)
        b, c = e.at('bvalue', j), e.g('cnt_', j)
        out.append(('lemma', i < e.n1dim, b * F <= (c - 1) * F))
        out.append(('lemma', i < e.n1dim, b * F >= 0))
        tot = tot + b * F
        span = span + (c - 1) * F
    if nd > 1:
        out.append(('lemma', i < e.n1dim, tot + e.g('cnt_', 0) - 1 <= e.g('span_')))
    return out


def rows_disjoint(e, nd, i, live):
    """rows of a patch inside a block (leading dimensions at least the extents) are disjoint; digits b against the witness row w"""
    out = []
    c = [e.g('cnt_', j) for j in range(nd)]
    F = [z3.IntVal(1)]
    for j in range(1, nd):
        F.append(F[-1] * e.g('ld_', j - 1))
    b = [None] + [e.at('bvalue', j) for j in range(1, nd)]
    w = [None] + [e.g('wit_', j) for j in range(1, nd)]
    for j in range(1, nd):
        ext = c[0]
        for k in range(1, j):
            ext = ext + (c[k] - 1) * F[k]
        out.append(('lemma', live, ext <= F[j]))
        for x in (b, w):
            out.append(('lemma', live, z3.Sum([z3.IntVal(0)] + [x[k] * F[k] for k in range(1, j)]) + c[0] <= F[j]))
    tb, tw = [z3.Sum([z3.IntVal(0)] + [x[k] * F[k] for k in range(1, nd)]) for x in (b, w)]
    for j in range(nd - 1, 0, -1):
        up = [live] + [b[k] == w[k] for k in range(j + 1, nd)]
        for x, y, s, t in ((b, w, tb, tw), (w, b, tw, tb)):
            out.append(('lemma', z3.And(up + [x[j] < y[j]]), x[j] * F[j] + F[j] <= y[j] * F[j]))
            out.append(('lemma', z3.And(up + [x[j] < y[j]]), s + c[0] <= t))
    out.append(('lemma', z3.And(live, i != e.g('irow_')), z3.Or(tb + c[0] <= tw, tw + c[0] <= tb)))
    return out


def once_content(e, nd, i):
    """each element is processed exactly once: new value after its row, old value before"""
    T = GT[e.case('type')]
    at = e.gat('g%s_' % T, e.g('off_'))
    out = inspan(e, nd, i)
    out += rows_disjoint(e, nd, i, i < e.n1dim)
    out += [at == z3.If(e.g('irow_') < i, e.g('w%s_' % T), e.g('o%s_' % T)), e.gat('g%s_' % T, e.g('span_') + 1) == e.g('e%s_' % T)]
    return out


def once_row(e):
    T = GT[e.case('type')]
    return [e.gat('g%s_' % T, e.g('off_')) == z3.If(z3.Or(e.g('irow_') < e.i, z3.And(e.g('irow_') == e.i, e.g('wit_', 0) < e.j)), e.g('w%s_' % T), e.g('o%s_' % T)),
            e.gat('g%s_' % T, e.g('span_') + 1) == e.g('e%s_' % T)]


def fill_row(e):
    T = GT[e.case('type')]
    return [z3.Implies(z3.Or(e.g('irow_') < e.i, z3.And(e.g('irow_') == e.i, e.g('wit_', 0) < e.j)), e.gat('g%s_' % T, e.g('off_')) == e.g('w%s_' % T)),
            e.gat('g%s_' % T, e.g('span_') + 1) == e.g('e%s_' % T)]


def subs_inv(e):
    """subscripts before idx are converted"""
    nd = e.case('ndim')
    w = e.g('ww_')
    return [z3.Implies(w < e.idx, e.at('_subs_array', w * nd + k) == e.g('sub_', nd - 1 - k) + 1) for k in range(nd)]


def map_inv(e):
    """the witness entry of the map is in place once its dimension has reached it"""
    return [z3.Implies(z3.Or(e.d > e.g('wd_'), z3.And(e.d == e.g('wd_'), e.i > e.g('wj_'))), e.at('_ga_map_capi', e.g('foff_')) == e.g('want_')),
            e.capi_offset >= 0, e.capi_offset + e.map_offset <= e.sum, e.map_offset >= 0]


def subsk():
    return [dict(func='%s%s%s' % (f, g, b), uses={'subsArray', '_subs_array', 'idx'}, writes={'idx'}, inv=subs_inv) for f in ('NGA_Scatter', 'NGA_Gather', 'NGA_Scatter_acc') for g in ('_flat', '') for b in ('', '64')]


PROPS = {'C%02d' % k: {} for k in range(1, 21)}
SIMB = 'random search with the real library (GA, ARMCI layer, ComEx MPI two-sided; units named -pr: ComEx with progress ranks) on 1 to 4 simulated ranks, one random schedule per run, small arrays'
SIMW = 'whole call chain across processes: outside the reach of a per-function contract'


def sim(prop, name, src, entry, cases, **kw):
    return dict(prop=prop, name=name, src=src, entry=entry, cases=cases, sim=kw.pop('sim', 'ts'), gvc=False, bound=kw.pop('bound', SIMB), why=kw.pop('why', SIMW), **kw)


def simpr(*a, **kw):
    """the same harness over the progress rank port"""
    return sim(a[0], a[1] + '-pr', *a[2:], sim='pr', defs=('-DSIM_PR',), **kw)


def kinds(ks, nd):
    return [dict(kind=k, ndim=d) for d in nd for k in ks]


def patchk(func, content, row):
    n = {'bvalue', 'bunit', 'n1dim', 'i'}
    return [dict(func=func, uses=n, writes={'i', 'j'}, inv=patchodo(content)), dict(func=func, uses=n, writes={'j'}, notwrites={'i', 'bvalue'}, inv=row)]


def walk_content(e, nd, i):
    out = inspan(e, nd, i)
    if nd > 1:
        out += rows_disjoint(e, nd, i, i < e.n1dim)
    return out + [e.g('hits_') == z3.If(e.g('irow_') < i, 1, 0)]


def select_inv(e):
    """the selected element is the best of the first i"""
    T = 'ilfd'[e.case('type')]
    a, v, ind, k = 'g%s_' % T, getattr(e, dict(i='ival', l='lval', f='fval', d='dval')[T]), e.g('ind_'), e.g('k_')
    rank = (lambda x: x) if T in 'il' else e.fprank
    x, y = rank(e.gat(a, k)), rank(v)
    return [0 <= ind, ind < e.g('n_'), e.gat(a, ind) == v, z3.Implies(k < e.i, x <= y if e.case('max') else x >= y)]


def diag_apart(e, i, live):
    """the i-th diagonal element of the block against the witness position (r, c) of its memory"""
    ld, c, r, d0 = e.g('ld_'), e.g('c_'), e.g('r_'), e.g('d0_')
    row, col = d0 - e.g('lo_', 0) + i, d0 - e.g('lo_', 1) + i
    pos = col * ld + row
    return [('lemma', z3.And(live, c < col), c * ld + ld <= col * ld), ('lemma', z3.And(live, c > col), col * ld + ld <= c * ld),
            ('lemma', z3.And(live, c == col), col * ld == c * ld),
            ('lemma', z3.And(live, z3.Not(z3.And(c == col, r == row))), pos != e.g('off_')), ('lemma', live, pos >= 0), ('lemma', live, col * ld + ld <= (e.g('hi_', 1) - e.g('lo_', 1) + 1) * ld)]


def block_value(e, done):
    """the witness element has its new value once it is done, its old one before"""
    t = e.case('type')
    T = GT[t]
    if t < 4:
        return [e.gat('g%s_' % T, e.g('off_')) == z3.If(done, e.g('w%s_' % T), e.g('o%s_' % T))]
    F = 'f' if t == 4 else 'd'
    return [e.gatf('g%s_' % T, e.g('off_'), m) == z3.If(done, e.g('w%s%s_' % (F, k)), e.g('o%s%s_' % (F, k))) for m, k in (('real', ''), ('imag', '2'))]


def diag_inv(e):
    return diag_apart(e, e.i, z3.And(e.i >= 0, e.i < e.g('n_'))) + block_value(e, z3.And(e.g('k_') >= 0, e.g('k_') < e.i))


def getd_inv(e):
    """the buffer has the diagonal elements up to i"""
    t = e.case('type')
    ty = {0: C_INT, 1: C_LONG, 2: C_FLT, 3: C_DBL}.get(t)
    k = e.g('k_')
    pos = diag_apart(e, e.i, z3.And(e.i >= 0, e.i < e.g('n_')))
    if ty:
        return pos + [z3.Implies(z3.And(k >= 0, k < e.i), e.at((e.buf, ty), k) == e.g('o%s_' % GT[t]))]
    F = 'f' if t == 4 else 'd'
    return pos


C_INT, C_LONG, C_FLT, C_DBL = ('int', 32, True), ('int', 64, True), ('fp', 32), ('fp', 64)


def row_apart(e, live):
    """element (i, j) of the block against the witness position (r, c) of its memory"""
    ld, c, r, i, j = e.g('ld_'), e.g('c_'), e.g('r_'), e.i, e.j
    return [('lemma', z3.And(live, c < j), c * ld + ld <= j * ld), ('lemma', z3.And(live, c > j), j * ld + ld <= c * ld), ('lemma', z3.And(live, c == j), j * ld == c * ld),
            ('lemma', z3.And(live, z3.Not(z3.And(c == j, r == i))), j * ld + i != e.g('off_')), ('lemma', live, j * ld >= 0), ('lemma', live, j * ld + ld <= e.g('cols_') * ld)]


def scale_inv(outer, inner):
    w = {'i': 'r_', 'j': 'c_'}

    def f_out(e):
        return block_value(e, z3.And(e.g('in_') != 0, e.g(w[outer]) < getattr(e, outer)))

    def f_in(e):
        i, j = getattr(e, outer), getattr(e, inner)
        live = z3.And(e.i >= 0, e.i <= e.g('hi_', 0) - e.g('lo_', 0), e.j >= 0, e.j < e.g('cols_'))
        return row_apart(e, live) + block_value(e, z3.And(e.g('in_') != 0, z3.Or(e.g(w[outer]) < i, z3.And(e.g(w[outer]) == i, e.g(w[inner]) < j))))
    return f_out, f_in


def med_content(e, nd, i):
    T = GT[e.case('type')]
    return inspan(e, nd, i) + rows_disjoint(e, nd, i, i < e.n1dim) + med_value(e, T, e.g('irow_') < i)


def med_value(e, T, done):
    rank = (lambda x: x) if T in 'il' else e.fprank
    return [rank(e.gat('g%s_' % T, e.g('off_'))) == rank(z3.If(done, e.g('w%s_' % T), e.g('o%s_' % T))), e.gat('g%s_' % T, e.g('base_') + e.g('span_') + 1) == e.g('e%s_' % T)]


def med_row(e):
    return med_value(e, GT[e.case('type')], z3.Or(e.g('irow_') < e.i, z3.And(e.g('irow_') == e.i, e.g('wit_', 0) < e.j)))


def scalek(func, outer, inner):
    o, i = scale_inv(outer, inner)
    return [dict(func=func, uses={'i', 'j', 'ld'}, writes={'i', 'j'}, inv=o), dict(func=func, uses={'i', 'j', 'ld'}, writes={inner}, notwrites={outer}, inv=i)]


def xfer_inv(e):
    """piece w_ has been transferred once the iterator is past it, and its process is known to the fence"""
    past = e.g('cur_') >= e.g('w_')
    hit = e.g('hits_') == 1
    done = past
    if e.case('op') == 2:
        # first the processes of other nodes, then those of this node
        far = e.g('same_') == 0
        done = z3.If(e.loop == 0, z3.And(past, far), z3.Or(past, far))
    out = [e.g('hits_') == z3.If(done, 1, 0), e.g('cur_') >= -1, e.g('cur_') <= e.g('n_')]
    if e.case('op') != 1:
        out.append(z3.Implies(z3.And(hit, e.g('fset_') != 0), e.gat('fence_array', e.g('procw_')) == 1))
    return out


def split_inv(e):
    """pieces before the current one are made, the current one lists its consecutive members"""
    c, gs, n, w = e.g('made_'), e.g('gs_'), e.g('pn_'), e.g('wq_')
    out = [c >= 0, e.i >= 0, e.i <= n, ('def', e.i, c * gs + e.icnt, True), e.icnt >= 0, e.icnt <= gs, z3.Implies(e.i > 0, e.icnt >= 1), z3.Implies(e.i == 0, c == 0),
           z3.Implies(w < e.icnt, e.at('nodes', w) == c * gs + w), z3.Implies(c > e.g('rat_'), e.ret == 5 + e.g('rat_'))]
    return out


def color_inv(e):
    """the list so far holds processes of the colour, among them the caller once it is passed"""
    w, n = e.g('wq_'), e.g('pn_')
    q = e.at('nodes', w)
    return [e.icnt >= 0, e.i >= 0, e.i <= n, e.icnt <= e.i, z3.Implies(w < e.icnt, z3.And(0 <= q, q < e.i, e.at('color_arr', q) == e.g('mine_'))), z3.Implies(e.i > e.g('me_'), e.icnt >= 1)]


def diagk(func, inv=diag_inv):
    return [dict(func=func, uses={'ld', 'i'}, writes={'i'}, inv=inv)]


ROWK = dict(do_abs='k_abs', do_recip='k_recip', do_add_const='k_addc', do_multiply='k_mul', do_divide='k_div', do_maximum='k_max', do_minimum='k_min')


def walkk(func):
    return [dict(func=func, uses={'bvalue', 'bunit', 'n1dim', 'i'}, writes={'i'}, inv=patchodo(walk_content))]


K1, K3 = [dict(type=t, ndim=1) for t in range(4)], [dict(type=t, ndim=3) for t in range(4)]
OV6 = [dict(type=t, overlay=o) for t in range(6) for o in sorted({0, 1 + t % 3, 3 if t > 3 else 0})]
OV4 = [dict(type=t, overlay=o) for t in range(4) for o in (0, 1 + t % 3)]
UNITS = [
    dict(prop='C07', name='walk1', src='ga_elem.c', entry='vs_walk1', cases=[dict(type=t, ndim=d, op=o) for t, o in ((0, 0), (1, 1), (2, 2), (3, 0), (4, 1), (5, 2)) for d in (1, 2)] + [dict(type=3, ndim=3, op=0)],
         thorough=[dict(type=t, ndim=3, op=o) for t in (0, 1, 2, 4, 5) for o in (0, 1, 2)], opts=dict(replace=ROWK), invs=walkk('ngai_do_oper_elem'), native=False),
    dict(prop='C07', name='walk2', src='ga_elem.c', entry='vs_walk2', cases=[dict(type=t, ndim=d, op=o) for t, o in ((0, 0), (1, 1), (2, 2), (3, 3), (4, 1), (5, 0)) for d in (1, 2)] + [dict(type=3, ndim=3, op=0)],
         thorough=[dict(type=t, ndim=3, op=o) for t in (0, 1, 2, 4, 5) for o in range(4)], opts=dict(replace=ROWK), invs=walkk('ngai_do_elem2_oper'), native=False),
    dict(prop='C07', name='abs', src='ga_elem.c', entry='vs_abs', cases=[dict(type=t) for t in range(4)]),
    dict(prop='C07', name='addc', src='ga_elem.c', entry='vs_addc', cases=[dict(type=t) for t in range(6)]),
    dict(prop='C07', name='mulk', src='ga_elem.c', entry='vs_mulk', cases=OV6, thorough=[dict(type=t, overlay=o) for t in range(6) for o in range(4) if dict(type=t, overlay=o) not in OV6]),
    dict(prop='C07', name='maxk', src='ga_elem.c', entry='vs_maxk', cases=OV4, thorough=[dict(type=t, overlay=o) for t in range(4) for o in range(4) if dict(type=t, overlay=o) not in OV4]),
    dict(prop='C07', name='mink', src='ga_elem.c', entry='vs_mink', cases=OV4, thorough=[dict(type=t, overlay=o) for t in range(4) for o in range(4) if dict(type=t, overlay=o) not in OV4]),
    dict(prop='C07', name='scalek', src='ga_patchk.c', entry='vs_scalek', cases=K1 + [dict(type=t, ndim=2) for t in (3,)], thorough=[dict(type=t, ndim=2) for t in range(3)] + K3, weight=1, invs=patchk('snga_scale_patch_value', once_content, once_row)),
    dict(prop='C07', name='addk', src='ga_patchk.c', entry='vs_addk', cases=K1 + [dict(type=t, ndim=2) for t in (1,)], thorough=[dict(type=t, ndim=2) for t in (0, 2, 3)] + K3, weight=1, invs=patchk('snga_add_patch_values', once_content, once_row)),
    dict(prop='C07', name='fillk', src='ga_patchk.c', entry='vs_fillk', cases=K1 + [dict(type=t, ndim=2) for t in (2,)], thorough=[dict(type=t, ndim=2) for t in (0, 1, 3)] + K3, weight=1,
         invs=patchk('snga_set_patch_value', fill_content, fill_row)),
    dict(prop='C05', name='acc', src='comex_acc.c', entry='vs_acc', cases=[dict(type=k) for k in range(6)]),
    dict(prop='C05', name='scale', src='comex_acc.c', entry='vs_scale', cases=[dict(type=k) for k in range(6)]),
    dict(prop='C15', name='memcopy', src='ga_memcopy.c', entry='vs_memcopy', cases=[dict(L=k, el=8) for k in range(0, 3)] + [dict(L=1, el=k) for k in (4, 16)], thorough=[dict(L=3, el=8)],
         invs=[dict(func='gai_mem_copy', uses={'src_bvalue', 'dst_bvalue', 'n1dim'}, calls={'memcpy'}, inv=memcopy_inv)]),
    dict(prop='C03', name='xfer', src='ga_xfer.c', entry='vs_xfer', cases=[dict(ndim=d, op=o, nb=b, type=t) for d, o, b, t in ((1, 0, 0, 3), (2, 0, 1, 0), (3, 0, 0, 5), (1, 1, 1, 0), (2, 1, 0, 5), (3, 1, 1, 3), (1, 2, 0, 0), (2, 2, 1, 1), (3, 2, 0, 2), (1, 2, 1, 3), (2, 2, 0, 4), (3, 2, 1, 5))],
         invs=[dict(func='ngai_(put|get|acc)_common', uses={'plo', 'phi', 'prem'}, calls={'gai_iterator_next'}, inv=xfer_inv)]),
    dict(prop='C03', name='iter', src='ga_iter.c', entry='vs_next', cases=[dict(ndim=d, grp=g) for d in range(1, 4) for g in range(-1, 3)]),
    dict(prop='C14', name='rdinc', src='ga_addr.c', entry='vs_rdinc', cases=[dict(ndim=d, grp=g, type=(d + g) % 2) for d in range(1, 4) for g in range(-1, 3)]),
    dict(prop='C02', name='address', src='ga_addr.c', entry='vs_access', cases=[dict(ndim=d, grp=g) for d in range(1, 4) for g in range(-1, 3) if g < 2 or d < 3]),
    dict(prop='C20', name='enum', src='ga_enum.c', entry='vs_enum', cases=[dict(type=t) for t in range(4)]),
    dict(prop='C11', name='tables', src='ga_grp.c', entry='vs_tables', opts=dict(nocut=['.*'], unroll=5),
         cases=[dict(slot=s, count=c, parent=q) for s, q in ((0, -1), (1, 0), (2, 1)) for c in range(1, 4)]),
    dict(prop='C11', name='dup', src='ga_grp.c', entry='vs_dup', opts=dict(replace=dict(pnga_pgroup_create='create_by_contract')), native=False, cases=[dict(grp=g) for g in (-1, 0, 1)]),
    dict(prop='C11', name='split', src='ga_grp.c', entry='vs_split', opts=dict(replace=dict(pnga_pgroup_create='create_by_contract')), native=False, cases=[dict(grp=g) for g in (-1, 0, 1)], invs=[dict(func='pnga_pgroup_split', uses={'nodes', 'icnt', 'ret'}, calls={'pnga_pgroup_create'}, inv=split_inv)]),
    dict(prop='C11', name='color', src='ga_grp.c', entry='vs_color', opts=dict(replace=dict(pnga_pgroup_create='create_by_contract')), native=False, cases=[dict(grp=g) for g in (-1, 0, 1)],
         invs=[dict(func='pnga_pgroup_split_irreg', uses={'nodes', 'icnt'}, writes={'icnt'}, inv=color_inv)]),
    dict(prop='C08', name='range', src='ga_peri.c', entry='vs_range', cases=[dict(ndim=1)], ncases=[dict(ndim=d) for d in range(1, 5)]),
    dict(prop='C08', name='boxes', src='ga_peri.c', entry='vs_boxes', opts=dict(replace=dict(ngai_peri_get_range_='range_by_contract')), native=False,
         cases=[dict(ndim=d, op=1 + (a + b + c) % 3, r0=a, r1=b, r2=c) for d in range(1, 4) for a in range(1, 4) for b in range(1, 4) for c in range(1, 4) if (d > 1 or b == 1) and (d > 2 or c == 1)]),
    dict(prop='C04', name='pr_pack', src='comex_pr_pack.c', entry='vs_pack', cases=[dict(L=k) for k in range(0, 4)],
         opts=dict(paths='pack|unpack'),
         invs=[dict(func='pack', uses={'src_bvalue', 'n1dim', 'packed_buffer'}, calls={'memcpy'}, inv=odometer('src_bvalue', 'src_bunit', 'count', 'i', 'n1dim', pack_content))]),
    dict(prop='C04', name='pr_unpack', src='comex_pr_pack.c', entry='vs_unpack', cases=[dict(L=k) for k in range(0, 4)],
         opts=dict(paths='pack|unpack'),
         invs=[dict(func='unpack', uses={'dst_bvalue', 'n1dim', 'packed_buffer'}, calls={'memcpy'}, inv=odometer('dst_bvalue', 'dst_bunit', 'count', 'i', 'n1dim', unpack_content))]),
    dict(prop='C01', name='locate', src='base_locate.c', entry='vs_locate',
         cases=dims(range(1, 5), dist=0) + [dict(ndim=d, dist=k) for k in (1, 2, 3, 4) for d in range(1, 4)]),
    dict(prop='C01', name='unique', src='base_locate.c', entry='vs_unique',
         cases=dims(range(1, 4), dist=0) + [dict(ndim=d, dist=k) for k in (1, 2, 3, 4) for d in range(1, 3)],
         ncases=[dict(ndim=d, dist=k) for k in range(5) for d in range(1, 4)]),
    dict(prop='C01', name='outside', src='base_locate.c', entry='vs_outside', cases=[dict(ndim=d, dist=k) for k in range(5) for d in range(1, 5)]),
    dict(prop='C01', name='topology', src='base_locate.c', entry='vs_topology', cases=[dict(ndim=d, dist=k) for k in range(5) for d in range(1, 4)]),
    dict(prop='C01', name='npieces', src='base_locate.c', entry='vs_npieces', cases=[dict(ndim=1, dist=0)], ncases=[dict(ndim=d, dist=k) for k in range(5) for d in range(1, 4)]),
    dict(prop='C01', name='pieces', src='base_locate.c', entry='vs_pieces', gvc=False, cases=[dict(ndim=d, dist=k) for k in range(5) for d in range(1, 3)],
         bound='random search: at most 14 elements and 5 blocks per dimension, 1 and 2 dimensions', why='content of the listing position by position: the solvers do not settle the content obligation within their time'),
    dict(prop='C01', name='region', src='base_locate.c', entry='vs_region', gvc=False, cases=[dict(ndim=d, dist=k) for k in range(5) for d in range(1, 5)],
         bound='random search: at most 14 elements and 5 blocks per dimension, 1 to 4 dimensions', why='listing of a patch'),
    dict(prop='C18', name='select', src='ga_red.c', entry='vs_selk', cases=[dict(type=t, max=m) for t in range(4) for m in (0, 1)], opts=dict(fp_order=True),
         invs=[dict(func='snga_select_elem', uses={'elems', 'i'}, writes={'i'}, inv=select_inv)]),
    dict(prop='C18', name='compare', src='ga_red.c', entry='vs_cmpk', cases=[dict(type=t, max=m) for t in range(5) for m in (0, 1)], opts=dict(fp_order=True)),
    dict(prop='C18', name='comparec', src='ga_red.c', entry='vs_cmpc', cases=[dict(type=t, max=m) for t in range(2) for m in (0, 1)], opts=dict(fp_order=True)),
    dict(prop='C19', name='shiftd', src='ga_mat.c', entry='vs_shiftd', cases=[dict(type=t) for t in (0, 2, 4)], thorough=[dict(type=t) for t in (1, 3, 5)], invs=diagk('sgai_shift_diagonal_block')),
    dict(prop='C19', name='zerod', src='ga_mat.c', entry='vs_zerod', cases=[dict(type=t) for t in (1, 3, 5)], thorough=[dict(type=t) for t in (0, 2, 4)], invs=diagk('sgai_zero_diagonal_block')),
    dict(prop='C19', name='setd', src='ga_mat.c', entry='vs_setd', cases=[dict(type=t) for t in (0, 3, 5)], thorough=[dict(type=t) for t in (1, 2, 4)], invs=diagk('sgai_set_diagonal_block')),
    dict(prop='C19', name='addd', src='ga_mat.c', entry='vs_addd', cases=[dict(type=t) for t in (1, 2, 4)], thorough=[dict(type=t) for t in (0, 3, 5)], invs=diagk('sgai_add_diagonal_block')),
    dict(prop='C19', name='getd', src='ga_mat.c', entry='vs_getd', cases=[dict(type=t) for t in (0, 2, 5)], thorough=[dict(type=t) for t in (1, 3, 4)], invs=diagk('sgai_get_diagonal_block', getd_inv)),
    dict(prop='C19', name='mediank', src='ga_median.c', entry='vs_medk', cases=K1, thorough=[dict(type=t, ndim=2) for t in (0, 1, 2, 3)] + K3, opts=dict(fp_order=True), invs=patchk('sgai_median_patch_values', med_content, med_row)),
    dict(prop='C19', name='scaler', src='ga_mat.c', weight=1, entry='vs_scaler', cases=[dict(type=t) for t in (0,)], thorough=[dict(type=t) for t in (1, 2, 3, 4, 5)], opts=dict(timeout=60000, budget=240), invs=scalek('sgai_scale_row_values', 'i', 'j')),
    dict(prop='C19', name='scalec', src='ga_mat.c', entry='vs_scalec', cases=[], thorough=[dict(type=t) for t in (0, 1, 2, 3, 4, 5)], opts=dict(timeout=60000, budget=240), invs=scalek('sgai_scale_col_values', 'j', 'i')),
    dict(prop='C12', name='wrappers', src='ga_capi.c', entry='vs_capi', cases=[dict(group=k) for k in range(16)], opts=dict(range='check'), weight=1),
    dict(prop='C12', name='gemm', src='ga_capi2.c', entry='vs_gemm', cases=[dict(type=t, wide=w) for t in range(4) for w in (0, 1)], opts=dict(range='check')),
    dict(prop='C12', name='print', src='ga_capi2.c', entry='vs_two', cases=[{}], opts=dict(range='check')),
    dict(prop='C12', name='owners', src='ga_capi2.c', entry='vs_owners', cases=[dict(ndim=d, wide=w, np=n) for d, n in ((1, 3), (3, 2), (7, 1)) for w in (0, 1)], opts=dict(range='check'),
         thorough=[dict(ndim=d, wide=w, np=n) for d in range(1, 8) for n in range(1, 5) for w in (0, 1)]),
    dict(prop='C12', name='subscripts', src='ga_capi2.c', entry='vs_flat', cases=[dict(ndim=d, wide=w, fn=f) for d in (1, 3) for w in (0, 1) for f in range(3)], thorough=[dict(ndim=d, wide=w, fn=f) for d in (2, 4, 5, 6, 7) for w in (0, 1) for f in range(3)], opts=dict(range='check'), invs=subsk()),
    dict(prop='C12', name='rows', src='ga_capi2.c', entry='vs_rows', cases=[dict(ndim=d, wide=w, fn=f) for d in (2,) for w in (0, 1) for f in range(3)], thorough=[dict(ndim=d, wide=w, fn=f) for d in (1, 3, 4, 5, 6, 7) for w in (0, 1) for f in range(3)], opts=dict(range='check'), invs=subsk()),
    dict(prop='C12', name='maps', src='ga_capi2.c', entry='vs_map', cases=[dict(ndim=d, wd=k, wide=w, fn=f) for d, k in ((1, 0), (2, 0), (2, 1), (3, 1)) for w in (0, 1) for f in ((3 * d + k + w) % 8,)], opts=dict(range='check'),
         thorough=[dict(ndim=d, wd=k, wide=w, fn=f) for d, k in ((1, 0), (2, 0), (2, 1), (3, 1), (3, 0), (3, 2), (4, 2)) for w in (0, 1) for f in range(8) if (d, k) not in ((1, 0), (2, 0), (2, 1), (3, 1)) or f != (3 * d + k + w) % 8],
         invs=[dict(func='copy_map' + x, uses={'_ga_map_capi', 'i', 'map'}, writes={'i'}, inv=map_inv) for x in ('', '64')]),
    sim('C03', 'patch', 'sim_patch.c', 'vs_patch', kinds(range(7), (1, 2, 3))),
    sim('C03', 'strided', 'sim_patch.c', 'vs_strided', kinds(range(7), (1, 2, 3))),
    sim('C03', 'nonblocking', 'sim_patch.c', 'vs_nonblocking', kinds(range(7), (2,))),
    sim('C02', 'access', 'sim_access.c', 'vs_access', kinds(range(7), (1, 2, 3))),
    sim('C06', 'scatter', 'sim_scat.c', 'vs_scatter', kinds(range(7), (1, 2, 3))),
    sim('C07', 'inplace', 'sim_alg.c', 'vs_inplace', kinds((0, 1, 3, 5), (1, 2, 3))),
    sim('C07', 'copy', 'sim_alg.c', 'vs_copy', kinds((0, 2, 4, 6), (1, 2, 3))),
    sim('C07', 'elem', 'sim_alg.c', 'vs_elem', kinds((0, 1, 3, 5), (1, 2, 3))),
    sim('C07', 'copyshape', 'sim_alg.c', 'vs_copyshape', kinds(range(3), (2,))),
    sim('C08', 'periodic', 'sim_peri.c', 'vs_periodic', kinds(range(7), (1, 2, 3))),
    sim('C13', 'ghost', 'sim_ghost.c', 'vs_ghost', kinds(range(3), (1, 2, 3, 4))),
    sim('C18', 'dot', 'sim_red.c', 'vs_dot', kinds(range(7), (1, 2, 3))),
    sim('C18', 'element', 'sim_red.c', 'vs_select', kinds(range(7), (1, 2, 3))),
    sim('C18', 'norm', 'sim_red.c', 'vs_norm', kinds(range(7), (1, 2))),
    sim('C18', 'gop', 'sim_red.c', 'vs_gop', [dict(type=t) for t in range(7)]),
    sim('C19', 'matrix', 'sim_mat.c', 'vs_matrix', [dict(kind=k) for k in range(7)]),
    sim('C19', 'median', 'sim_mat.c', 'vs_median', kinds(range(7), (1, 2))),
    sim('C19', 'matmul', 'sim_mat.c', 'vs_matmul', [dict(kind=k, how=h) for k in range(7) for h in range(4)]),
    sim('C14', 'readinc', 'sim_scat.c', 'vs_readinc', kinds(range(7), (1, 2))),
    dict(prop='C10', name='history', src='ma_hist.c', entry='vs_ma', cases=[{}], ncases=[dict(unit=k) for k in range(8)], gvc=False, nsecs=8,
         bound='random histories of up to 120 operations on segments of up to 6000 elements, 24 live blocks', why='linked lists of headers at computed byte addresses inside one segment (pointer arithmetic on raw addresses) are outside the logic of the verifier'),
    sim('C11', 'groups', 'sim_grp.c', 'vs_grp', [dict(op=o) for o in (0, 1, 2, 3, 4, 5, 6, 9)]),
    sim('C15', 'life', 'sim_life.c', 'vs_life', [dict(op=o) for o in range(12)]),
    sim('C16', 'mirror', 'sim_mirror.c', 'vs_mirror', [dict(op=o, ndim=d) for o in (0, 1) for d in (1, 2, 3)]),
    sim('C20', 'enumerate', 'sim_sparse.c', 'vs_enum', [dict(kind=k) for k in range(3)]),
    sim('C20', 'scan', 'sim_sparse.c', 'vs_scan', [dict(kind=k) for k in range(3)]),
    sim('C20', 'pack', 'sim_sparse.c', 'vs_packga', [dict(kind=k) for k in range(3)]),
    simpr('C03', 'patch', 'sim_patch.c', 'vs_patch', kinds(range(7), (1, 2, 3))),
    simpr('C03', 'strided', 'sim_patch.c', 'vs_strided', kinds(range(7), (1, 2, 3))),
    simpr('C03', 'nonblocking', 'sim_patch.c', 'vs_nonblocking', kinds(range(7), (2,))),
    simpr('C06', 'scatter', 'sim_scat.c', 'vs_scatter', kinds(range(7), (1, 2, 3))),
    simpr('C14', 'readinc', 'sim_scat.c', 'vs_readinc', kinds(range(7), (1, 2))),
    simpr('C11', 'groups', 'sim_grp.c', 'vs_grp', [dict(op=o) for o in (0, 1, 2, 3, 4, 5, 6, 9)]),
    simpr('C15', 'life', 'sim_life.c', 'vs_life', [dict(op=o) for o in range(12)]),
    simpr('C16', 'mirror', 'sim_mirror.c', 'vs_mirror', [dict(op=o, ndim=d) for o in (0, 1) for d in (1, 2, 3)]),
    sim('C20', 'bin', 'sim_sparse.c', 'vs_bin', [dict(kind=k, sort=s) for k in range(3) for s in (0, 1)]),
]
