"""writes specs/ga_capi.c: the contract of every index converting C wrapper (global/src/capi.c), from the table below.
A row: callee | kinds of the callee's arguments | result | wrappers (T = this name and name64).
Kinds: g handle, s scalar, t scalar index (+1), c character passed by address, p pointer handed on, x not compared,
I index array (reversed, +1), D array (reversed), N the same or null, A array as it is, L leading dimensions (ndim-1, reversed), M distribution map (per dimension blocks reversed, +1),
oI oD oA oL oS results.  Result: - none, r the callee's value, b its truth value, H the new handle or 0, O the owner or -1, S the callee's scalar result, v the value behind the pointer."""
import re, os, sys
TAB = '''
create | s d D p N | H | NGA_CreateT
create_config | s d D p N s | H | NGA_Create_configT
create_ghosts | s d D D p N | H | NGA_Create_ghostsT
create_ghosts_config | s d D D p N s | H | NGA_Create_ghosts_configT
set_data | g d D s | - | GA_Set_dataT NGA_Set_dataT
set_chunk | g N | - | GA_Set_chunkT NGA_Set_chunkT
set_block_cyclic | g D | - | GA_Set_block_cyclicT NGA_Set_block_cyclicT
set_block_cyclic_proc_grid | g D D | - | GA_Set_block_cyclic_proc_gridT NGA_Set_block_cyclic_proc_gridT
set_tiled_proc_grid | g D D | - | GA_Set_tiled_proc_gridT NGA_Set_tiled_proc_gridT
set_ghosts | g D | - | GA_Set_ghostsT NGA_Set_ghostsT
get_block_info | g oD oD | - | GA_Get_block_info NGA_Get_block_info
merge_distr_patch | g I I g I I | - | NGA_Merge_distr_patchT
get_ghost_block | g I I p L | - | NGA_Get_ghost_blockT
get | g I I p L | - | NGA_GetT
put | g I I p L | - | NGA_PutT
nbget | g I I p L p | - | NGA_NbGetT
nbput | g I I p L p | - | NGA_NbPutT
acc | g I I p L p | - | NGA_AccT
nbacc | g I I p L p p | - | NGA_NbAccT
strided_acc | g I I D p L p | - | NGA_Strided_accT
strided_get | g I I D p L | - | NGA_Strided_getT
strided_put | g I I D p L | - | NGA_Strided_putT
periodic | g I I p L p 0 | - | NGA_Periodic_getT NGA_Periodic_putT NGA_Periodic_accT
read_inc | g I s | r | NGA_Read_incT
distribution | g s oI oI | - | NGA_DistributionT
select_elem | g p p oI | - | NGA_Select_elemT
scan_add | g g g t t s | - | GA_Scan_addT
scan_copy | g g g t t | - | GA_Scan_copyT
patch_enum | g t t p p | - | GA_Patch_enumT
pack | g g g t t oS | - | GA_PackT
unpack | g g g t t oS | - | GA_UnpackT
access_ptr | g I I p oL | - | NGA_AccessT
access_block_ptr | g s p oL | - | NGA_Access_blockT
access_block_grid_ptr | g D p oL | - | NGA_Access_block_gridT
access_block_segment_ptr | g s p oS | - | NGA_Access_block_segmentT
access_ghost_ptr | g oD p oL | - | NGA_Access_ghostsT
access_ghost_element_ptr | g p I oL | - | NGA_Access_ghost_elementT
release | g I I | - | NGA_ReleaseT
release_update | g I I | - | NGA_Release_updateT
release_block_grid | g x | - | NGA_Release_block_grid
release_update_block_grid | g x | - | NGA_Release_update_block_grid
release_ghost_element | g I | - | NGA_Release_ghost_elementT
release_update_ghost_element | g I | - | NGA_Release_update_ghost_elementT
release_block | g s | - | NGA_Release_block
release_block_segment | g s | - | NGA_Release_block_segment
locate | g I oS | O | NGA_LocateT
locate_nnodes | g I I oS | S | NGA_Locate_nnodesT
locate_num_blocks | g I I | r | NGA_Locate_num_blocks
inquire | g oS oS oQ | - | NGA_InquireT
update_ghost_dir | g R s s | r | NGA_Update_ghost_dir
get_proc_index | g s oD | - | GA_Get_proc_index NGA_Get_proc_index
copy_patch | c g I I g I I | - | NGA_Copy_patchT
dot_patch | g c I I g c I I v | vint:int,vlong:long,vlong:long_long,vdouble:double,vfloat:float | NGA_Idot_patchT NGA_Ldot_patchT NGA_Lldot_patchT NGA_Ddot_patchT NGA_Fdot_patchT
fill_patch | g I I p | - | NGA_Fill_patchT
zero_patch | g I I | - | NGA_Zero_patchT
scale_patch | g I I p | - | NGA_Scale_patchT
add_patch | p g I I p g I I g I I | - | NGA_Add_patchT
print_patch | g I I s | - | NGA_Print_patchT
abs_value_patch | g I I | - | GA_Abs_value_patchT
add_constant_patch | g I I p | - | GA_Add_constant_patchT
recip_patch | g I I | - | GA_Recip_patchT
elem_multiply_patch | g I I g I I g I I | - | GA_Elem_multiply_patchT
elem_divide_patch | g I I g I I g I I | - | GA_Elem_divide_patchT
elem_maximum_patch | g I I g I I g I I | - | GA_Elem_maximum_patchT
elem_minimum_patch | g I I g I I g I I | - | GA_Elem_minimum_patchT
median_patch | g I I g I I g I I g I I | - | GA_Median_patchT
step_max_patch | g I I g I I p | - | GA_Step_max_patchT
step_bound_info_patch | g I I g I I g I I g I I p p p | - | GA_Step_bound_info_patchT
get_field | g I I s s p L | - | NGA_Get_field
put_field | g I I s s p L | - | NGA_Put_field
nbget_field | g I I s s p L p | - | NGA_Nbget_field
nbput_field | g I I s s p L p | - | NGA_Nbput_field
set_restricted | g A s | - | GA_Set_restricted NGA_Set_restricted
gop | K p s p | - | K:C_INT,C_LONG,C_LONGLONG,C_FLOAT,C_DBL,C_SCPL,C_DCPL,C_INT,C_LONG,C_LONGLONG,C_FLOAT,C_DBL,C_SCPL,C_DCPL | GA_Igop GA_Lgop GA_Llgop GA_Fgop GA_Dgop GA_Cgop GA_Zgop NGA_Igop NGA_Lgop NGA_Llgop NGA_Fgop NGA_Dgop NGA_Cgop NGA_Zgop GA_Gop:s NGA_Gop:s
pgroup_gop | s K p s p | - | K:C_INT,C_LONG,C_LONGLONG,C_FLOAT,C_DBL,C_SCPL,C_DCPL,C_INT,C_LONG,C_LONGLONG,C_FLOAT,C_DBL,C_SCPL,C_DCPL | GA_Pgroup_igop GA_Pgroup_lgop GA_Pgroup_llgop GA_Pgroup_fgop GA_Pgroup_dgop GA_Pgroup_cgop GA_Pgroup_zgop NGA_Pgroup_igop NGA_Pgroup_lgop NGA_Pgroup_llgop NGA_Pgroup_fgop NGA_Pgroup_dgop NGA_Pgroup_cgop NGA_Pgroup_zgop GA_Pgroup_gop:s NGA_Pgroup_gop:s
dot | K s s v | vint:int,vlong:long,vlong:long_long,vdouble:double,vfloat:float | K:C_INT,C_LONG,C_LONGLONG,C_DBL,C_FLOAT | GA_Idot GA_Ldot GA_Lldot GA_Ddot GA_Fdot
duplicate | s oH p | H | GA_Duplicate NGA_Duplicate
compare_distr | g g | n | GA_Compare_distr NGA_Compare_distr
matmul_patch | c c p p g I I g I I g I I | - | NGA_Matmul_patchT
matmul_patch_alt | c c p p g I I g I I g I I | - | NGA_Matmul_patch_altT
nbget_ghost_dir | g D p | - | NGA_NbGet_ghost_dirT
'''
R = os.environ.get('GA_REPO', '/repo')
S = open(R + '/global/src/capi.c').read()
H = open(R + '/global/src/ga-papi.h').read()
W = {m.group(2): (m.group(1).strip(), [x.strip() for x in re.sub(r'\s+', ' ', m.group(3)).split(',')]) for m in re.finditer(r'^([A-Za-z_][\w \*]*?)\b((?:GA|NGA)_\w*)\s*\(([^;{}]*?)\)\s*\{', S, re.M)}
P = {m.group(2): (m.group(1).strip(), [x.strip() for x in re.sub(r'\s+', ' ', m.group(3)).split(',')]) for m in re.finditer(r'extern\s+(.*?)\b(pnga_\w+)\s*\((.*?)\)\s*;', H, re.S)}
# first and second factor change places and transposition, because the order of the dimensions is reversed
SWAP = {'matmul_patch': {0: 1, 1: 0, 4: 7, 5: 8, 6: 9, 7: 4, 8: 5, 9: 6}}
SWAP['matmul_patch_alt'] = SWAP['matmul_patch']


def pname(p):
    return re.search(r'(\w+)\s*(\[\])?$', p).group(1)


def ptype(p):
    return 'int64_t' if 'int64_t' in p else 'long' if 'long' in p else 'int'


CONST = dict(i='C_INT', l='C_LONG', ll='C_LONGLONG', f='C_FLOAT', d='C_DBL', c='C_SCPL', z='C_DCPL')


def body(name):
    m = re.search(r'^[A-Za-z_][\w \*]*?\b%s\s*\([^;{}]*?\)\s*\{' % name, S, re.M)
    i, d = m.end(), 1
    while d:
        d += {'{': 1, '}': -1}.get(S[i], 0)
        i += 1
    return S[m.end():i]


SKIP = {'GA_Get_proc_grid', 'NGA_Get_proc_grid', 'GA_Error', 'NGA_Error', 'NGA_Register_type', 'GA_Print_patch', 'NGA_Locate_region', 'NGA_Locate_region64'}


def auto(done):
    rows = {}
    for w, (rt, wp) in W.items():
        wp = [x for x in wp if x not in ('', 'void')]
        if w in done or w in SKIP or not wp:
            continue
        c = [x for x in dict.fromkeys(re.findall(r'\bwnga_(\w+)', body(w))) if x not in ('ndim', 'get_dimension')]
        if len(c) != 1 or 'pnga_' + c[0] not in P or c[0] in done:
            continue
        prt, pp = P['pnga_' + c[0]]
        pp = [x for x in pp if x not in ('', 'void')]
        if len(pp) != len(wp):
            continue
        ks = []
        for a, b in zip(wp, pp):
            if '*' not in a and '[' not in a and re.match(r'(Integer|logical) \w+$', b) and re.match(r'(int|int64_t|long) \w+$', a):
                ks.append('s')
            elif re.search(r'(void|char) ?\*|nbhdl', a) and re.search(r'(void|char|Integer) ?\*|nbhdl', b) and '[' not in a:
                ks.append('p')
            elif re.match(r'(int|long|long long|float|double|SingleComplex|DoubleComplex) x\[\]$', a):
                ks.append('p')
            else:
                break
        if len(ks) == len(wp) and (rt == 'void') == (prt == 'void'):
            rows.setdefault((c[0], ' '.join(ks), '-' if rt == 'void' else 'r'), []).append(w)
    return ['%s | %s | %s | %s' % (k[0], k[1], k[2], ' '.join(v)) for k, v in rows.items()]


def main():
    o = ['/* generated by tools/gencapi.py (do not edit): C12, contracts of the C wrappers.  Real code: global/src/capi.c */', '#include "ga_capi.h"']
    funcs = []
    tab = TAB.strip().split('\n')
    done = set()
    for r in tab:
        f = [x.strip() for x in r.split('|')]
        done.add(f[0])
        for w in f[-1].replace(':s', '').split():
            done |= {w[:-1], w[:-1] + '64'} if w.endswith('T') else {w}
    more = auto(done)
    print('\n'.join(more))
    for row in tab + more:
        f = [x.strip() for x in row.split('|')]
        callee, kinds, res, ws = f[0], f[1], f[2], f[-1]
        consts = f[3][2:].split(',') if len(f) == 5 else None
        kinds = kinds.split()
        rt, pp = P['pnga_' + callee]
        wl = []
        gen = set()
        for w in ws.split():
            if w.endswith(':s'):
                gen.add(w[:-2])
                w = w[:-2]
            wl += [w[:-1], w[:-1] + '64'] if w.endswith('T') else [w]
        n = len(kinds)
        full = kinds + (['oS'] if res == 'H' and 'oH' not in kinds else [])
        if len(pp) != len(full):
            sys.exit('%s: %d parameters, %d kinds' % (callee, len(pp), len(full)))
        # the stub: the contract of the callee as far as the wrapper is concerned
        names = ['a%d' % i for i in range(len(pp))]
        decl = []
        for x, p in zip(names, pp):
            decl.append(re.sub(r'(\w+)\s*(\[\])?$', lambda m: x + (m.group(2) or ''), p) if p != 'void' else 'void')
        b = ['ncall_++;']
        for i, k in enumerate(full):
            if k in 'gsdtK':
                b.append('ENSURE(a%d == es_[%d], "%s");' % (i, i, dict(g='handle handed on', s='scalar argument handed on', K='data type', d='scalar argument handed on', t='index argument counted from one')[k]))
            elif k == 'R':
                b.append('ENSURE(a%d == es_[%d], "dimension counted from the other end");' % (i, i))
            elif k == '0':
                b.append('op_ = a%d;' % i)
            elif k == 'c':
                b.append('ENSURE(*a%d == es_[%d], "character argument handed on");' % (i, i))
            elif k == 'p':
                b.append('if (ep_[%d] != ANY) ENSURE((const void*)a%d == ep_[%d], "pointer handed on");' % (i, i, i))
            elif k in 'IDNALM':
                txt = dict(I='index reversed and counted from one', D='array reversed', N='array reversed', A='array handed on', L='leading dimensions reversed', M='map reversed and counted from one')[k]
                if k == 'N':
                    b.append('if (null_) ENSURE(a%d == 0 || !strict_, "no array given"); else' % i)
                b.append('AEQ(a%d, %d, "%s")' % (i, i, txt))
            elif k == 'v':
                b.append('*(vt_)a%d = 0;' % i if 0 else 'VOUT(a%d)' % i)
            elif k[0] == 'o':
                b.append('*a%d = os_[%d];' % (i, i) if k in ('oS', 'oH') else 'AOUT(a%d, %d)' % (i, i))
        if rt != 'void':
            b.append('return (%s)rv_;' % rt)
        b = [re.sub(r', "([^"]*)"\)', lambda m: ', "%s: %s")' % (callee, m.group(1)), x) for x in b]
        o.append('%s pnga_%s(%s) { %s }' % (rt, callee, ', '.join(decl), ' '.join(b)))
        rr = res.split(',') if res.startswith('v') else None
        for wi, w in enumerate(wl):
            wrt, wp = W[w]
            tname = rr[wi // 2 if callee == 'dot_patch' else wi].split(':') if rr else None
            sw = SWAP.get(callee, {})
            j, c, pre, chk, args = 0, [], [], [], []
            cur, ng = 0, 0
            # which array an argument belongs to: the last handle before it (the first one for arguments before any)
            for i, k in enumerate(kinds):
                if callee == 'periodic' and i == 5 and 'acc' not in w:
                    pre.append('ep_[5] = ANY;')
                    continue
                if k in ('0', 'v'):
                    continue
                if k == 'oH':
                    hslot = i
                    continue
                if k == 'K' and w not in gen:
                    pre.append('es_[%d] = %s;' % (i, consts[wi]))
                    continue
                if k == 'K':
                    k = 's'
                if k == 'oS' and res in ('O', 'S'):
                    pre.append('os_[%d] = OUT1_int("o%d");' % (i, i))
                    continue
                src = wp[j]
                j += 1
                t = ptype(src)
                q = 'v%d' % i
                e = sw.get(i, i)
                if k == 'g':
                    cur = ng
                    ng += 1
                    pre.append('%s %s = G0_ + %d; es_[%d] = %s;' % (t, q, cur, e, q))
                    args.append(q)
                elif k in 'st':
                    ty = 'int' if t == 'int' else 'long'
                    pre.append('%s %s = VAL_%s("s%d"); es_[%d] = (Integer)%s%s;' % (t, q, ty, i, e, q, ' + 1' if k == 't' else ''))
                    args.append(q)
                elif k == 'R':
                    pre.append('int %s = vs_int("dim", 0, nd_[0] - 1); es_[%d] = nd_[0] - %s;' % (q, e, q))
                    args.append(q)
                elif k == 'x':
                    pre.append('int *%s = vs_ints("a%d", nd_[0], 7, 0, 1000);' % (q, i))
                    args.append(q)
                elif k == 'd':
                    pre.append('int %s = nd_[0]; es_[%d] = %s;' % (q, e, q))
                    args.append(q)
                elif k == 'c':
                    pre.append('char %s = (char)vs_int("c%d", 33, 126); es_[%d] = %s;' % (q, i, e, q))
                    args.append(q)
                elif k == 'p':
                    pre.append('void *%s = buf_ + %d; ep_[%d] = %s;' % (q, 8 * i, e, q))
                    args.append(q)
                elif k in 'IDNALM':
                    ln = 'nd_[%d]' % cur + (' - 1' if k == 'L' else '')
                    if k == 'A':
                        ln = '5'
                        pre.append('es_[%d] = 5;' % (i + 1))
                    ty = 'int' if t == 'int' else 'i64'
                    pre.append('%s *%s = IN_%s("a%d", %s, %d, %d, %d);' % (t, q, ty, i, ln, e, k in 'I', k != 'A'))
                    args.append('null_ ? 0 : ' + q if k == 'N' else q)
                    chk.append('UNCH(%s, %s, %d, "the caller\'s array is unchanged")' % (q, ln, e))
                elif k[0] == 'o':
                    if k == 'oS':
                        pre.append('%s %s = 0; os_[%d] = OUT1_%s("o%d");' % (t, q, i, 'int' if t == 'int' else 'long', i))
                        if callee == 'inquire' and i == 2:
                            pre.append('os_[2] = nd_[0];')
                        args.append('&' + q)
                        chk.append('ENSURE(%s == os_[%d], "scalar result handed back");' % (q, i))
                    else:
                        ln = 'nd_[%d]' % cur + (' - 1' if k == 'oL' else '')
                        ty = 'int' if t == 'int' else 'i64'
                        pre.append('%s *%s = OUT_%s("o%d", %s, %d);' % (t, q, ty, i, ln, i))
                        args.append(q)
                        chk.append('OEQ(%s, %s, %d, %s, "%s")' % (q, ln, i, '- 1' if k == 'oI' else '', 'index handed back reversed and counted from zero' if k == 'oI' else 'array handed back reversed'))
            if callee == 'set_restricted':
                # size is the length of the list
                pre = [x for x in pre if not x.startswith('int v2')] + ['int v2 = 5; es_[2] = 5;']
                args[2] = 'v2'
            if len(args) != len(wp):
                sys.exit('%s: %d arguments for %d' % (w, len(args), len(wp)))
            call = '%s(%s)' % (w, ', '.join(args))
            hs = kinds.index('oH') if 'oH' in kinds else len(full) - 1
            if res == 'n':
                call = 'ENSURE(%s == !rv_, "zero for the same distribution");' % call
                pre.append('rv_ = vs_int("ret", 0, 1);')
            elif res == 'r':
                call = 'ENSURE(%s == (%s)rv_, "value handed back");' % (call, wrt)
                pre.append('rv_ = vs_int("ret", 0, 1);' if rt == 'logical' else 'rv_ = VAL_%s("ret");' % ('long' if wrt == 'long' else 'int'))
            elif res == 'H':
                call = 'ENSURE(%s == (rv_ ? os_[%d] : 0), "the new handle or zero");' % (call, hs)
                pre.append('rv_ = vs_int("ret", 0, 1); os_[%d] = OUT1_int("h");' % hs)
            elif res == 'O':
                call = 'ENSURE(%s == (rv_ ? os_[2] : -1), "the owner or -1");' % call
                pre.append('rv_ = vs_int("ret", 0, 1);')
            elif res == 'S':
                call = 'ENSURE(%s == os_[3] || !rv_, "the number of owners");' % call
                pre.append('rv_ = vs_int("ret", 0, 1);')
            elif rr:
                ct = tname[1].replace('_', ' ')
                pre.append('vt_ = %d; vi_ = VAL_%s("ret");' % (dict(int=0, long=1, double=2, float=3)[tname[0][1:]], 'int'))
                call = 'ENSURE(%s == (%s)vi_, "the value of the callee");' % (call, ct)
            else:
                call += ';'
            loopn = 'SAME ' if callee in ('step_max_patch', 'step_bound_info_patch') else 'OWN '
            null = 'strict_ = 1; ' if 'N' in kinds else ''
            if callee == 'periodic':
                chk.append('ENSURE(op_ == PERIODIC_%s, "the operation asked for");' % dict(g='GET', p='PUT', a='ACC')[w.split('_')[2][0]])
            lab = lambda x: re.sub(r', "([^"]*[a-z] [^"]*)"\)', lambda m: ', "%s: %s")' % (w, m.group(1)), x)
            pre, chk, call = [x for x in pre], [lab(x) for x in chk], lab(call)
            o.append('static void f_%s(void) { %s%sSTART; { %s %s %s ENSURE(ncall_ == 1, "%s: done by one call"); } }' % (w, loopn, null, ' '.join(pre), call, ' '.join(chk), w))
            funcs.append((w, 'N' in kinds, max(1, ng)))
    G = int(os.environ.get('G', '16'))
    per = [funcs[i::G] for i in range(G)]
    o.append('#define NGRP %d' % G)
    o.append('static void run(int grp) { switch (grp) {')
    for g, fs in enumerate(per):
        o.append('case %d: %s break;' % (g, ' '.join('f_%s();' % f if not nul else 'null_ = 0; f_%s(); null_ = 1; f_%s(); null_ = 0;' % (f, f) for f, nul, ng in fs)))
    o.append('} }')
    o.append('VS_ENTRY(vs_capi) { int g = (int)vs_case("group", 0, NGRP - 1), d; for (d = 1; d <= 7; d++) { base(d); run(g); } vs_reach("end"); return 0; }')
    open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'specs', 'ga_capi.c'), 'w').write('\n'.join(o) + '\n')
    print(len(funcs), 'wrappers')


main()
