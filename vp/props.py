"""The jobs of every property: text templates with symbolic holes and the property over what the program does."""
import itertools, os, re, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'spec'))
from gen import *

FORMS = load_forms()
INT = 'BFE BFI XMAD SHR SHF IADD IADD32I IADD3 ICMP IMNMX ISCADD ISET ISETP FLO POPC LEA LOP LOP32I LOP3 SHL VMAD VMNMX VSETP SEL MOV MOV32I'.split()
FLT = ('DADD DFMA DMNMX DMUL DSET DSETP MUFU FADD FADD32I FFMA FFMA32I FMNMX FMUL FMUL32I FSET FSETP FCMP F2F F2I I2F I2I HADD2 HADD2_32I HFMA2 HFMA2_32I '
       'HMUL2 HMUL2_32I HSET2 HSETP2 RRO').split()
MEM = 'AL2P ALD AST ATOM ATOMS LDC SUST SULD STG STS STL LDG LDS LDL RED TEX TEXS TLD4 TLD4S TLD TLDS TMML TXD TXQ SHFL'.split()
CTL = [m for m in dict.fromkeys(f.mn for f in FORMS) if m not in INT + FLT + MEM]

PROPS = {}
COMMON_ASSUME = [
    'C library models (strto*, printf family, string functions, operator new) in engine/runtime.cpp and engine/symex.cpp stand for the real ones; every reported counterexample is replayed on the real g++ build',
    'allocation does not fail; hash values are replaced by a constant, which is a correct hash',
    'the bitcode is clang -O1 of the current sources; the shipped build is g++ -O1',
]


def prop(pid, bounds, outside, assume=()):
    def deco(f):
        PROPS[pid] = dict(f=f, bounds=bounds, outside=outside, assumptions=COMMON_ASSUME + list(assume))
        return f
    return deco


def slot_ints(form):
    """positions of integer slots, as Cfg.ints keys"""
    r = []
    for p, s in enumerate(split_slots(form)):
        if s in ('i20', 'u20x', 'a:imm') or re.match(r'[us]\d+@', s):
            r.append((p, s))
        elif s == 'cb':
            r += [((p, 0), 'cb0'), ((p, 1), 'cb1')]
        elif s == 'ldcaddr':
            r += [((p, 0), 'ldc0'), ((p, 1), 'ldc1')]
        elif s == 'a:patch' or re.match(r'mem:\d', s):
            r.append(((p, 1), s))
    return r


def slot_floats(form):
    return [(p, s) for p, s in enumerate(split_slots(form)) if s in ('f20', 'f32', 'd20') or re.match(r'h(9|16)@', s)]


HEAVY = {'232_VMNMX': 40, '230_VMAD': 40, '231_VMAD': 15, '129_HSETP2': 35, '112_HADD2': 16, '084_FSET': 12, '085_FSET': 12, '086_FSET': 12,
         '233_VMNMX': 12, '119_HFMA2': 12, '102_F2F': 8, '240_TEX': 8}


def encoding_jobs(mnemonics, tier):
    jobs = []
    deep = tier == 'thorough'
    bud = dict(budget=200 if deep else 90, qtimeout=120000 if deep else 40000)
    for f in FORMS:
        if f.mn not in mnemonics:
            continue
        es = dict(enum_slots(f))
        # A: every combination of modifiers, any in-range operand values
        split = [{}]
        if f.mn in ('HSET2', 'HSETP2') and 'S20' in ' '.join(f.slots):
            p = [p for p, s in enumerate(split_slots(f)) if s.startswith('t:bop')][0]
            split = [{p: i} for i in range(len(es[p]))]
        for k, fx in enumerate(split):
            cfg = Cfg(reg_default='low', int_default='inside', flt_default='one', pred_mode='few', fixed=fx)
            jobs.append(job_single(f, cfg, f.id + '/modifiers%s' % (k or ''), _cost=HEAVY.get(f.id, 30 if fx else 3), **bud))
        # B: operand values, in and out of range, default modifiers
        fixed = {p: 0 for p in es}
        jobs.append(job_single(f, Cfg(fixed=fixed, flt_default='one', mem='reg+off'), f.id + '/operands', **bud))
        # C: every register name, and the other spellings of addresses
        mems = ['reg+off']
        if any(s.startswith('mem:') or s == 'ldcaddr' for s in f.slots):
            mems = ['off', 'RZ+off', 'reg', 'none']
        for m in mems:
            if 'mem:none' in f.slots and m in ('off', 'RZ+off'):
                continue
            jobs.append(job_single(f, Cfg(fixed=fixed, reg_default='all', flt_default='one', mem=m, int_default=None if m in ('off', 'RZ+off') else 'inside'),
                                   f.id + '/registers-' + m, **bud))
        # D: all modifiers and predicates at their last alternative
        if deep:
            last = {p: len(a) - 1 for p, a in es.items()}
            jobs.append(job_single(f, Cfg(fixed=last, flt_default='one'), f.id + '/operands-last', **bud))
            for p, a in es.items():
                if len(a) > 2:
                    for i in range(len(a)):
                        jobs.append(job_single(f, Cfg(fixed=dict(fixed, **{p: i}), flt_default='one', reg_default='all', int_default='inside'), '%s/slot%d=%d' % (f.id, p, i), **bud))
    return [({}, jobs)]


ENC_B = ('every instruction form of the family; all combinations of all its modifiers at once with any register R000-R199 and any in-range literal of the maximal digit count; '
         'any register spelling R000-R299 / R0-R254 / RZ, any predicate, any integer literal one hex digit wider than the field; one instruction per program, single spaces')
ENC_O = 'leading zeros beyond three register digits, other literal spellings (C05), other white space (C13), several instructions (C07, C08)'


@prop('C01', ENC_B, ENC_O)
def c01(tier):
    return encoding_jobs(INT, tier)


@prop('C02', ENC_B, ENC_O)
def c02(tier):
    return encoding_jobs(FLT, tier)


@prop('C03', ENC_B, ENC_O)
def c03(tier):
    return encoding_jobs(MEM, tier)


@prop('C04', ENC_B, ENC_O)
def c04(tier):
    return encoding_jobs(CTL, tier)


# ------------------------------------------------------------------ C05 integers
def int_job(f, key, kind, jid, **kw):
    fixed = {p: 0 for p, _ in enum_slots(f)}
    cfg = Cfg(fixed=fixed, reg_default=7, int_default='inside', ints={key: kind}, flt_default='one', pred_mode='few', mem=kw.pop('mem', 'reg+off'))
    return job_single(f, cfg, jid, **kw)


@prop('C05', 'every integer operand of every form; hexadecimal literals of any 16 digits and either sign (every 64-bit value and beyond); for one form per kind of field also capital '
      'hexadecimal, decimal up to 12 (thorough 19) digits and octal up to 22 digits; literals of 17 to 24 digits whose leading digits are free',
      'longer literals; binary literals; white space inside (C13)')
def c05(tier):
    deep = tier == 'thorough'
    jobs = []
    seen = set()
    bud = dict(budget=200 if deep else 60, qtimeout=120000 if deep else 30000)
    for f in FORMS:
        for key, s in slot_ints(f):
            n = '%s/%s' % (f.id, s)
            jobs.append(int_job(f, key, 'hex16', n + '/hex16', **bud))
            if s.startswith('mem:') or s == 'ldc1':
                jobs.append(int_job(f, key, 'hex16', n + '/hex16-off', mem='off', **bud))
                jobs.append(int_job(f, key, 'hex16', n + '/hex16-RZ', mem='RZ+off', **bud))
            kind = re.sub(r'@.*', '', s)
            if kind in seen and not deep:
                continue
            seen.add(kind)
            jobs.append(int_job(f, key, ('X', 7, '0X'), n + '/capital', **bud))
            for d in ([1, 2, 3, 4, 6, 8, 10, 12] if not deep else list(range(1, 20))):
                for sign in (' ', '-'):
                    jobs.append(int_job(f, key, (10, d, sign), n + '/decimal%s%d' % (sign.strip(), d), _cost=2 + d, **bud))
            jobs.append(int_job(f, key, (8, 7, '0'), n + '/octal', **bud))
            jobs.append(int_job(f, key, (8, 11, '0'), n + '/octal', **bud))
            # more digits than any field has: must be diagnosed, whatever the value
            for prefix, k in (('0x1', 16), ('0xf', 23), ('1844674407370', 7), ('9', 19), ('9223372036854775', 4)):
                fixed = {p: 0 for p, _ in enum_slots(f)}
                t = Template()
                t.word.append(bv(7 << 16))
                cfg = Cfg(fixed=fixed, reg_default=7, int_default='inside', ints={key: ('wide', prefix, k)}, flt_default='one', pred_mode='few')
                build(f, cfg, t)
                t.lit(';')
                jobs.append(finish(t, '%s/wide-%s+%d' % (n, prefix, k), **bud))
    return [({}, jobs)]


# ------------------------------------------------------------------ C06 floating immediates
@prop('C06', 'every floating operand of every form: any decimal literal, represented by the single-precision value it reads as (all 2^32 bit patterns of sign, exponent and fraction, '
      'subnormals and overflow to infinity included) and by its sign; the names QNAN and INF with every sign; hexadecimal integer literals of 7 (thorough 16) digits and either sign; '
      'literal texts out of a table of eight through the real strtof',
      'the decimal to binary conversion of strtof itself (C library); exponents and hexadecimal floating literals (not part of the language)',
      ['the literal 1.5 with the free value stands for every decimal literal: the code sees the text only through strtof'])
def c06(tier):
    deep = tier == 'thorough'
    jobs = []
    bud = dict(budget=300 if deep else 90, qtimeout=200000 if deep else 60000)
    for f in FORMS:
        es = dict(enum_slots(f))
        for pos, s in slot_floats(f):
            for mods in ([0, -1] if deep else [0]):
                fixed = {p: (0 if mods == 0 else len(a) - 1) for p, a in es.items()}
                for kind in ('float', 'named', 'int', 'alts'):
                    ints = {pos: 'hex16' if deep else (16, 7, '0x')}
                    cfg = Cfg(fixed=fixed, reg_default=7, int_default='inside', flt={pos: kind}, flt_default='one', pred_mode='few', ints=ints)
                    jobs.append(job_single(f, cfg, '%s/%s@%d/%s%s' % (f.id, s, pos, kind, '' if mods == 0 else '/mods'), _cost={'int': 20, 'float': 10}.get(kind, 1), **bud))
    return [({}, jobs)]


# ------------------------------------------------------------------ C07 labels
FORM = {}
for _f in FORMS:
    FORM.setdefault(_f.mn, []).append(_f)
LABELFORMS = [f for f in FORMS if 'label' in f.slots]


def plain(f, **k):
    """every modifier at its first alternative, fixed operands"""
    k = dict(dict(fixed={p: 0 for p, _ in enum_slots(f)}, reg_default=7, int_default='inside', flt_default='one', pred_mode='few'), **k)
    return Cfg(**k)


def filler(pr, k, end=';\n'):
    """a different small instruction for every k"""
    pr.raw('MOV R%d, R%d%s' % (k % 200, (k * 7) % 190 + 1, end), 0x5C98078000070000 | k % 200 | ((k * 7) % 190 + 1) << 20)


def label_table(h, addrs):
    return sel_val(h, addrs)


def label_program(n, b, form, style, deep_mods=False):
    pr = Program()
    t = pr.t
    names = ['L%d' % i for i in range(n)] + ['END']
    for i in range(n):
        lead = '\n' if style == 'own-line' else ' '
        if style in ('first', 'own-line', 'crlf'):
            pr.lit(names[i] + ':' + lead)
        elif style == 'indent':
            pr.lit('%s:\n\t  ' % names[i] if i % 2 else 'X%d_%d:\n\n%s:\n    ' % (i, i, names[i]))
        elif style == 'packed':  # several instructions on a line; only some of them have labels
            pr.lit((names[i] + ': ') if i % 3 == 0 else '')
        end = ';\r\n' if style == 'crlf' else '; ' if style == 'packed' and i % 3 != 2 else ';\n'
        if i == b:
            avail = [k for k in range(n + 1) if style != 'packed' or k % 3 == 0 or k == n]

            def lab(t, avail=avail):
                h = t.alts([names[k] for k in avail], 'lb')
                return sel_val(h, [address(k) for k in avail])
            fixed = {p: (len(a) - 1 if deep_mods else 0) for p, a in enum_slots(form)}
            pr.insn(form, plain(form, label=lab, fixed=fixed), end=end)
        else:
            filler(pr, i, end)
    pr.lit(('' if style != 'packed' or n % 3 == 0 else '\n') + names[n] + ':\n')
    return pr


@prop('C07', 'programs of up to 16 (thorough 40) instructions with a label on every instruction and at the end, the branch at every position, any of the labels as its target; every branching form; '
      'labels on their own lines, in front of instructions, repeated, indented code, several instructions on a line, carriage returns; label names of up to 3 free characters with a table of names that are '
      'prefixes, extensions and case variants of each other; names that label several instructions, five labels each any of three names; programs of 40, 160, 300, 2500, 6300 (thorough 400 and 25000) instructions with the branch at selected positions',
      'labels that do not start a line (unspecified); programs longer than 8 MiB, where offsets leave the field (numeric targets cover the range, C04)')
def c07(tier):
    deep = tier == 'thorough'
    bud = dict(budget=200 if deep else 60, qtimeout=60000)
    jobs = []
    k = 0
    for n in range(1, 41 if deep else 17):
        for b in range(n):
            f = LABELFORMS[k % len(LABELFORMS)]
            styles = ('first', 'own-line', 'indent', 'packed', 'crlf')
            for style in (styles if deep or n < 10 else [styles[k % 5]]):
                jobs.append(label_program(n, b, f, style, k % 2 == 1).job('%s/%d-instructions/at-%d/%s' % (f.id, n, b, style), **bud))
            k += 1
    for f in LABELFORMS:
        for b in range(4):
            jobs.append(label_program(4, b, f, 'first', b % 2 == 0).job('%s/every-form/at-%d' % (f.id, b), **bud))
    for n, bs in [(40, (0, 13, 39)), (160, (0, 80, 159))] + ([(400, (0, 201, 399))] if deep else []):
        for b in bs:
            jobs.append(label_program(n, b, LABELFORMS[1], 'first').job('long/%d/at-%d' % (n, b), **bud))
    # names
    table = ['a', 'ab', 'aB', 'abc', 'ab_', 'ab1', 'A', 'Ab', 'b', 'bab', 'c1', 'B_']
    first, rest = 'aAbBc', 'aAbBc_1'
    for ln in (1, 2, 3):
        for bpos in ('front', 'back'):
            pr = Program()
            hs = []

            def lab(t, hs=hs):
                for q in range(ln):
                    hs.append(t.alts(list(first if q == 0 else rest), 'nm'))
                v, cs = bv(0), []
                for i, name in enumerate(table):
                    if len(name) == ln:
                        c = AND(*['(= %s %s)' % (h, bv((first if q == 0 else rest).index(name[q]), 8)) for q, h in enumerate(hs)])
                        cs.append(c)
                        v = '(ite %s %s %s)' % (c, bv(address(i + (1 if bpos == 'front' else 0))), v)
                t.valid.append(OR(*cs))
                return v
            f = LABELFORMS[1]
            if bpos == 'front':
                pr.insn(f, plain(f, label=lab))
            for i, name in enumerate(table):
                pr.lit(name + ':\n')
                filler(pr, i)
            if bpos == 'back':
                pr.insn(f, plain(f, label=lab))
            jobs.append(pr.job('names/%d-characters/%s' % (ln, bpos), **bud))
    # far labels: the distance and the addresses leave 8, 16 and (with the label's line) more bits
    for n in (300, 2500, 6300) + ((25000,) if deep else ()):
        for back in (False, True):
            pr = Program()
            f = LABELFORMS[(n + back) % len(LABELFORMS)]
            near = n // 2

            def lab(t):
                h = t.alts(['first', 'mid', 'last'], 'lb')
                return sel_val(h, [address(1), address(near), address(n - 2)])
            for i in range(n):
                if i in (1, near, n - 2):
                    pr.lit({1: 'first', near: 'mid', n - 2: 'last'}[i] + ':\n')
                if i == (n - 1 if back else 0):
                    pr.insn(f, plain(f, label=lab))
                else:
                    pr.raw('NOP;\n', NOPWORD)
            jobs.append(pr.job('far/%d-instructions/%s' % (n, 'back' if back else 'front'), **dict(bud, budget=300, _cost=50)))
    # a name that labels several instructions means the first of them
    for n, cand in ((5, (0, 1, 2, 3, 4)), (9, (0, 2, 3, 7, 8)), (12, (1, 4, 5, 6, 11))):
        for b in range(n):
            pr = Program()
            f = LABELFORMS[(n + b) % len(LABELFORMS)]
            t = pr.t
            names = ['x_1', 'y_1', 'xx1']
            hs = {}
            # the names are chosen up front so that the branch can refer to those behind it
            for i in cand:
                hs[i] = t.declare(names, 'nm')

            def lab(t):
                h = t.alts(names, 'lb')
                v, some = bv(0), []
                for i in reversed(cand):
                    c = '(= %s %s)' % (hs[i], h)
                    v = '(ite %s %s %s)' % (c, bv(address(i)), v)
                    some.append(c)
                t.valid.append(OR(*some))
                return v
            for i in range(n):
                if i in hs:
                    t.use(hs[i])
                    pr.lit(':\n')
                if i == b:
                    pr.insn(f, plain(f, label=lab))
                else:
                    filler(pr, i)
            jobs.append(pr.job('repeated-name/%d-instructions/at-%d' % (n, b), **bud))
    # a free name, defined once and used
    letters = 'abcdefghijklmnoqstuvwxyzABCDEFGHIJKLMNOQSTUVWXYZ'
    for ln in (1, 2, 3, 4):
        for pos in (0, 2, 5):
            pr = Program()
            t = pr.t
            hs = [t.set_hole(letters if q == 0 else letters + '0123456789_pPrR', 'nm') for q in range(ln)]
            f = LABELFORMS[(ln + pos) % len(LABELFORMS)]
            for i in range(6):
                if i == pos:
                    for h in hs:
                        t.use(h)
                    pr.lit(':\n')
                elif i in (1, 3):
                    pr.lit('other%d: ' % i)
                if i == 4:
                    def lab(t):
                        for h in hs:
                            t.use(h)
                        return bv(address(pos))
                    pr.insn(f, plain(f, label=lab))
                else:
                    filler(pr, i)
            jobs.append(pr.job('free-name/%d-characters/at-%d' % (ln, pos), **bud))
    return [({}, jobs)]


# ------------------------------------------------------------------ C08 bundles
SCHEDS = [('', 0x7E0), ('@Y', 0x7F0), ('@WAIT 13', 0x7ED), ('@WB 2', 0x740), ('@RB 1 @DEP 3', 0x1E0 | 8 << 11), ('@WAIT 15 @YIELD @WB 0 @RB 5 @DEP 0 @DEP 5', 0x51F | 33 << 11)]


def some_sched(t):
    h = t.alts([a for a, _ in SCHEDS], 'sh')
    return sel_val(h, [v for _, v in SCHEDS])


def bundle_program(n, forms, sep, symbolic):
    pr = Program()
    for k in range(n):
        f = forms[k % len(forms)]
        sym = k in symbolic
        if n > 100 and not sym:
            filler(pr, k, ';' + sep)
            continue
        cfg = plain(f, reg_default='two' if sym else 10 + k % 80, reuse=sym)
        pr.insn(f, cfg, sched=some_sched if sym else None, end=';' + sep)
    return pr


@prop('C08', 'programs of 0 to 40 (thorough 100) instructions, each with any registers R10-R99, any reuse flags and any of six scheduling annotations on up to five neighbouring instructions at every position; '
      'instructions on one line or on lines of their own; over a rotation of forms that covers all of them; programs of 257 and 1030 instructions with the free ones at the front, in the middle and at the end',
      'more instructions; annotations beyond the table (C09)')
def c08(tier):
    deep = tier == 'thorough'
    bud = dict(budget=200 if deep else 60, qtimeout=60000)
    jobs = []
    fs = [f for f in FORMS if 'label' not in f.slots]
    e = Program()
    for txt in ('', ' ', '\n\n', ' \t\r\n '):
        pr = Program()
        pr.lit(txt)
        jobs.append(pr.job('empty/%d' % len(txt), **bud))
    at = 0
    for n in list(range(1, 101 if deep else 41)) + [257, 1030]:
        for w in range(0, n, 3) if n < 41 else (0, 3 * (n // 6), n - 2):
            forms = [fs[(at + i) % len(fs)] for i in range(n)]
            at += 5
            sym = set(range(max(0, w - 1), min(n, w + 4)))
            jobs.append(bundle_program(n, forms, ['\n', ' ', '\r\n'][at % 3], sym).job('%d-instructions/window-%d' % (n, w), **bud))
    return [({}, jobs)]


# ------------------------------------------------------------------ C09 scheduling annotations
def sched_job(kinds, form, bud, digits=2, prefix='0x', base=16):
    pr = Program()

    def sched(t):
        stall, y, wb, rb = bv(0), bv(0), bv(7), bv(7)
        wait = bv(0)
        seen = set()
        deps = []
        for i, k in enumerate(kinds):
            t.lit((' ' if i else '') + k)
            name = '@Y' if k == '@YIELD' else k
            if name in seen and name != '@DEP':
                t.valid.append('false')
            seen.add(name)
            if name == '@Y':
                y = bv(16)
                continue
            t.lit(' ')
            v = t.hexint(digits, ' -', prefix, base)
            t.in_range(v, 0, 15 if k == '@WAIT' else 5)
            if k == '@WAIT':
                stall = v
            elif k == '@WB':
                wb = v
            elif k == '@RB':
                rb = v
            else:
                for d in deps:
                    t.valid.append(NOT('(= %s %s)' % (d, v)))
                deps.append(v)
                wait = '(bvor %s (bvshl %s %s))' % (wait, bv(1), v)
        return ('(bvor (bvand %s %s) (bvor %s (bvor (bvshl (bvand %s %s) %s) (bvor (bvshl (bvand %s %s) %s) (bvshl (bvand %s %s) %s)))))'
                % (stall, bv(15), y, wb, bv(7), bv(5), rb, bv(7), bv(8), wait, bv(63), bv(11)))
    pr.insn(form, plain(form, reuse=True), sched=sched, end=';')
    return pr.job('%s/%s/%s%d' % (form.id, ''.join(kinds), prefix, digits), **bud)


@prop('C09', 'every sequence of up to four (thorough five) annotations out of WAIT, WB, RB, DEP, Y, YIELD, each with any two-digit hexadecimal value of either sign, and sequences of five and six including all six DEPs '
      'and decimal values; over a rotation of all instruction forms, with any reuse flags',
      'longer sequences; other spellings of the values (C05)')
def c09(tier):
    deep = tier == 'thorough'
    bud = dict(budget=200 if deep else 60, qtimeout=60000)
    K = ['@WAIT', '@WB', '@RB', '@DEP', '@Y', '@YIELD']
    fs = [f for f in FORMS if 'label' not in f.slots]
    seqs = [s for n in range(1, 6 if deep else 5) for s in itertools.product(K, repeat=n)]
    seqs += [('@DEP',) * 6, ('@DEP',) * 7, ('@WAIT', '@DEP', '@WB', '@DEP', '@RB', '@Y'), ('@Y', '@RB', '@WB', '@WAIT', '@DEP'), ('@WB', '@RB', '@DEP', '@DEP', '@DEP', '@WAIT', '@YIELD')]
    jobs = []
    for i, s in enumerate(seqs):
        jobs.append(sched_job(s, fs[(i * 7) % len(fs)], bud))
    for i, k in enumerate(K[:4]):
        for d in (1, 2, 3):
            jobs.append(sched_job((k,), fs[(i * 31 + d) % len(fs)], bud, d, '', 10))
    return [({}, jobs)]


# ------------------------------------------------------------------ C10 guards
def any_guard(t, np, extra=True):
    names = ['P%d' % i for i in range(7)] + ['PT']
    good = ['@%s ' % n for n in names] + ['@!%s ' % n for n in names] + ['']
    bad = ['@P7 ', '@!P7 ', '@P8 ', '@P9 ', '@P10 ', '@P ', '@! ', '@!R0 ', '@R0 ', '@1 ', '@PT1 ', '@ ', '@@P0 ', '@!!P0 ', '@PT.X ', 'P0 ', '@P0, ', '@-P0 '] if extra else []
    h = t.alts(good + bad, 'gd')
    t.word.append(sel_val(h, [v << 16 for v in range(16)] + [7 << 16] + [0] * len(bad)))
    t.valid.append('(bvult %s %s)' % (h, bv(len(good), 8)))
    if np:
        t.valid.append(OR('(= %s %s)' % (h, bv(7, 8)), '(= %s %s)' % (h, bv(16, 8))))
    return h


@prop('C10', 'every form of every mnemonic with every predicate guard (none, P0 to P6, PT, each negated) and eighteen malformed guards; first and second modifier alternatives free',
      'white space between the guard and its parts (C13)')
def c10(tier):
    deep = tier == 'thorough'
    bud = dict(budget=200 if deep else 60, qtimeout=60000)
    jobs = []
    for f in FORMS:
        for last in (False, True):
            t = Template()
            any_guard(t, f.np)
            fixed = {p: (len(a) - 1 if last else 0) for p, a in enum_slots(f)}
            build(f, plain(f, fixed=fixed, reg_default='two'), t)
            t.lit(';')
            jobs.append(finish(t, f.id + ('/last' if last else '/first'), **bud))
        if deep:
            t = Template()
            any_guard(t, f.np, False)
            build(f, Cfg(reg_default=7, int_default='inside', flt_default='one', pred_mode='few'), t)
            t.lit(';')
            jobs.append(finish(t, f.id + '/all-modifiers', **bud))
    return [({}, jobs)]


# ------------------------------------------------------------------ C11 registers
def reg_text_job(f, pos, n, bud):
    """one register operand written with n free digits"""
    t = Template()
    t.word.append(bv(7 << 16))
    cfg = plain(f, regs={pos: ('digits', n) if isinstance(n, int) else ('prefix',) + n})
    build(f, cfg, t)
    t.lit(';')
    return finish(t, '%s/operand-%d/%s-digits' % (f.id, pos, n), **bud)


def reg_positions(f):
    r = []
    for p, s in enumerate(split_slots(f)):
        if re.match(r'[DSM]\d+$', s) or s in ('a:patch', 'a:phys', 'ldcaddr') or s.startswith('mem:'):
            r.append(p)
    return r


@prop('C11', 'every register operand of every form: each written with 1, 2, 3 and (one form per kind of operand) 8 free digits and with literals around 2^32, 2^63, 2^64 and 10^23, R0-R254 and RZ by name with every reuse flag combination, '
      'the reuse flag on operands that cannot carry it', 'more digits')
def c11(tier):
    deep = tier == 'thorough'
    bud = dict(budget=200 if deep else 60, qtimeout=60000)
    jobs = []
    seen = set()
    for f in FORMS:
        slots = split_slots(f)
        for p in reg_positions(f):
            for n in (1, 2, 3):
                jobs.append(reg_text_job(f, p, n, bud))
            if slots[p] not in seen or deep:
                seen.add(slots[p])
                for n in (4, 5, 8, ('42949', 5), ('1844674407370955', 4), ('922337203685477', 4), ('99999999999999999999', 3)):
                    jobs.append(reg_text_job(f, p, n, bud))
        # any registers, any reuse flags, on every operand
        t = Template()
        t.word.append(bv(7 << 16))
        build(f, plain(f, reg_default='all', reuse='any'), t)
        t.lit(';')
        jobs.append(finish(t, f.id + '/reuse', **bud))
    return [({}, jobs)]


# ------------------------------------------------------------------ texts of every construct, for mutations
def concrete(f, last=False):
    """one text of the form and nothing symbolic"""
    t = Template()
    fixed = {p: (len(a) - 1 if last else 0) for p, a in enum_slots(f)}
    build(f, plain(f, fixed=fixed, reg_default=12 if last else 7), t)
    holes = {h['name']: h for h in t.holes}
    out = b''
    for p in t.pieces:
        if isinstance(p, str):
            out += bytes.fromhex(p)
        else:
            h = holes[p['h']]
            out += bytes.fromhex(h['alts'][0]) if 'alts' in h else bytes.fromhex(h['set'])[:1]
    return re.sub(r' +', ' ', out.decode('latin1').replace('1.5', '1.5 ').strip())


CONTEXTS = ['.dksh compute\n.num_gprs 12\n.workgroup_size 8 4 2\n.shared_memory 256\n.local_memory 0x10\nmain:\n@!P3 MOV R1.reuse, R2;\nEXIT;\n',
            '.type compute\nMOV R0, R1 @WAIT 15 @WB 0 @RB 5 @DEP 3 @DEP 0 @Y;\nl_1: BRA l_1;\n\tx2:\nBRA 0x8;\n',
            'a: @P0 FADD.FTZ R0, -|R1|, 1.5;\nBRA CC.LT, a;\n@PT IADD R1, R2.reuse, -0x7f;\n',
            '.type hull\nNOP;', '.type domain\nNOP;', '.dksh fragment\nmain: NOP;', '.dksh vertex\nmain: NOP;', '.dksh pixel\nmain: NOP;', '.dksh geometry\nmain:\nNOP;', '.dksh compute\nNOP;\nmain: NOP;\n',
            '.dksh compute\nNOP;\nNOP;NOP;\nmain:\nNOP;\n', '.type tess_eval\nNOP;\n', '.type tess_control\n.type vertex\nNOP;\n', '.workgroup_size 1 2\n3\nNOP;\n', '.num_gprs\n5\nNOP;']
ANY = bytes(range(256))


def window_job(jid, pre, k, post, prop, sets=None, **kw):
    holes = [{'name': 'x%d' % i, 'set': (sets[i] if sets else ANY).hex()} for i in range(k)]
    runs = [[pre.encode('latin1').hex()] + [{'h': h['name']} for h in holes] + [post.encode('latin1').hex()]]
    j = dict(id=jid, holes=holes, runs=runs, prop=prop, floats=[], maxw=kw.pop('maxw', 0), merge=False, anyfloat=True)
    j.update(kw)
    return j


ENDS = '(or ok0 %s)' % reject()


@prop('C12', 'every text of up to 3 (thorough 4) arbitrary bytes; texts of every instruction form (with its first and its last modifiers), every option, annotation, guard and label construct in which '
      'any byte is replaced by any other, any two bytes (quick: at every third place) are inserted, or the text ends after any place and one or two arbitrary bytes; words, numbers, names and runs of blanks and punctuation of 120 to 5000 (thorough 20000) characters and one arbitrary byte in 25 places; bitcode with undefined-behaviour traps (signed overflow, shifts, bounds, '
      'null, enum, bool, float conversion, unreachable), every memory access checked for bounds, lifetime and initialisation',
      'longer arbitrary parts; stack exhaustion by long runs of labels; memory exhaustion')
def c12(tier):
    deep = tier == 'thorough'
    bud = dict(budget=400 if deep else 60, qtimeout=60000)
    jobs = []
    for k in range(0, 5 if deep else 4):
        jobs.append(window_job('any/%d-bytes' % k, '', k, '', ENDS, _cost=50 ** k, **dict(bud, budget=800 if deep else 300)))
    for piece, post in (('a:\n', 'NOP;'), ('\n', 'NOP;'), ('NOP;', ''), ('.num_gprs 5\n', 'NOP;'), ('x: ', 'NOP;'), ('NOP;\nl: ', 'NOP;')):
        jobs.append(window_job('repeated/%s' % piece.strip(), piece * 2100, 1, post, ENDS, _repeat=(piece.encode(), 2000000), _cost=20, **dict(bud, budget=200)))
    # long words, numbers, names and runs of punctuation, in every place a diagnostic can be about
    for c, pre in enumerate(['', 'MOV R1, ', 'MOV R1, R2 ', 'MOV', '.', '.dksh ', '.num_gprs ', 'BRA ', 'S2R R1, ', 'FADD R1, R2, ', 'FADD R1, -', '@', 'NOP @', 'NOP @WAIT ', 'LDG R1, [R2', 'MOV R1, c[', 'MOV R1, c[0x0][', 'FADD.', 'NOP;\n', 'FADD R1, R2, 1.', 'MOV R1, R',
                             'MOV R1, 0x', '.dksh compute\n.shared_memory ', 'KIL CC.', 'TEXS R1, R0, R2, R3, 0x4, ']):
        for k, ch in enumerate(['x', '1', 'R2', '.RZ', 'P2', '-', ' ', 'x: ', '|', '@', 'A_', '\t\n', ';']):
            for n in ((60, 600, 1100, 5000, 20000) if deep else (1100,) if (c + k) % 3 else (120, 600, 5000)):
                jobs.append(window_job('long/%d-%s-%d' % (c, ch.strip() or 'blank%d' % k, n), pre + (ch * n)[:n], 1, (' ' if (c + k + n) % 2 else '') + ';', ENDS, _cost=2, **bud))
    src = [(f.id + ('/last' if last else '/first'), concrete(f, last) + ';') for f in FORMS for last in (False, True)]
    src = list({t: (i, t) for i, t in reversed(src)}.values())
    src += [('context/%d' % i, t) for i, t in enumerate(CONTEXTS)]
    for n, (i, text) in enumerate(src):
        for p in range(len(text) + 1):
            full = i.startswith('context') or deep
            if p < len(text) and (full or (p + n) % 3 == 0):
                jobs.append(window_job('%s/replace-%d' % (i, p), text[:p], 1, text[p + 1:], ENDS, **bud))
            if full or (p + n) % 9 == 1:
                jobs.append(window_job('%s/insert2-%d' % (i, p), text[:p], 2, text[p:], ENDS, _cost=5, **bud))
            if full or (p + n) % 3 == 2:
                jobs.append(window_job('%s/end-%d' % (i, p), text[:p], 2 if deep else 1, '', ENDS, **bud))
    return [({'ub': True}, jobs)]


# ------------------------------------------------------------------ C16 rejected texts
import ref


def result_prop(cases, r=0):
    """cases: [(condition, words or None or UNSPEC)], exhaustive; the most frequent result is the default"""
    groups = {}
    for c, w in cases:
        groups.setdefault(tuple(w) if isinstance(w, list) else w, []).append(c)
    maxw = max([len(w) for w in groups if isinstance(w, tuple)] + [0])

    def good(w):
        if w is None:
            return reject(r)
        if w == ref.UNSPEC:
            return '(or ok%d %s)' % (r, reject(r))
        return AND('ok%d' % r, '(= n%d %s)' % (r, bv(len(w), 32)), *['(= w%d_%d %s)' % (r, k, bv(x)) for k, x in enumerate(w)])
    order = sorted(groups, key=lambda w: -len(groups[w]))
    e = good(order[0])
    for w in order[1:]:
        e = '(ite %s %s %s)' % (OR(*groups[w]), good(w), e)
    return e, maxw


def byte_mutation(jid, pre, post, **kw):
    cases = []
    for b, same in ref.classes():
        w = ref.assemble(pre + chr(b) + post)
        cases += [('(= x0 %s)' % bv(x, 8), w) for x in same]
    prop, maxw = result_prop(cases)
    return window_job(jid, pre, 1, post, prop, maxw=maxw, **kw)


def token_mutation(jid, pre, alts, post, **kw):
    """alternatives stand between pre and post, with white space around them"""
    alts = list(dict.fromkeys(alts))
    L = max(map(len, alts))
    prop, maxw = result_prop([('(= x0 %s)' % bv(i, 8), ref.assemble(pre + ' ' + a.ljust(L) + ' ' + post)) for i, a in enumerate(alts)])
    return dict(id=jid, holes=[{'name': 'x0', 'alts': [a.encode().hex() for a in alts]}], runs=[[(pre + ' ').encode().hex(), {'h': 'x0'}, (' ' + post).encode().hex()]],
                prop=prop, floats=[], maxw=maxw, merge=False, anyfloat=True, **kw)


VOCAB = sorted({x for f in FORMS for a in ref.ALTS[f.idx] if a for x, _ in a if x and ' ' not in x} - {n for _, n in SYSREGS})
PUNCT = ['', ',', ', ,', ';', '; ;', '|', '-', '~', '+', '@', '!', '[', ']', '.', ':', 'R3', 'RZ', 'R255', 'R', 'r3', 'rz', 'P2', '!P1', 'PT', 'P7', 'p3', '!R1', '5', '-5', '+5', '0x5', '5.', '1.5', '-1.5', 'c[1][4]',
         'c', 'a', 'c[1]', '[R2+4]', '[R2]', '[4]', 'a[4]', 'a[R2]', 'a[R2+4]', 'QNAN', 'INF', 'CC', 'CC.LT', 'PR', 'SR_LANEID', '.reuse', '.REUSE', '@WAIT 3', '@Y', '@WAIT', '@wait 3', '@P1', 'foo', '.foo', 'x', '#', '$1', '"', '/', '//', '(', ')', '{', '*', '=', '<']
TOKEN = re.compile(r'[A-Za-z_][A-Za-z0-9_]*|\.[A-Za-z0-9_]+|[+-]?\d[\dxA-Za-z_]*(?:\.\d+)?|\S')


def token_sites(text):
    return [(m.start(), m.end()) for m in TOKEN.finditer(text)]


def _mk(a):
    kind, args, kw = a
    return {'b': byte_mutation, 't': token_mutation, 'o': opt_mutation}[kind](*args, **kw)


def parallel(specs):
    import multiprocessing as mp
    with mp.get_context('fork').Pool(min(8, os.cpu_count() or 1)) as p:
        return p.map(_mk, specs, 64)


@prop('C16', 'texts of every instruction form, with its first and its last modifiers, alone and between other instructions, in which one byte is replaced by, two neighbouring bytes are replaced by, or there is inserted, any byte '
      '(quick: at a rotating selection of places, thorough: everywhere), or one token is deleted or replaced by, or there is inserted, any of 70 constructs of the language and foreign tokens, the tokens of the text itself, also in '
      'lower case, swapped or doubled, or (thorough: all, quick: a rotating 60) the modifiers of the whole instruction set',
      'longer changes; what labels inside instructions, labels that do not start a line, binary literals and unsigned offsets after a register mean')
def c16(tier):
    deep = tier == 'thorough'
    bud = dict(budget=200 if deep else 60, qtimeout=60000)
    specs = []
    src = [(f.id + ('/last' if last else '/first'), concrete(f, last) + ';') for f in FORMS for last in (False, True)]
    src = list({t: (i, t) for i, t in reversed(src)}.values())
    src += [('annotated', 'MOV R1.reuse, R2 @WAIT 13 @WB 2 @RB 3 @DEP 4 @Y;'), ('guarded', '@!P3 FADD R1, R2, -1.5;'), ('program', 'a:\nMOV R1, R2;\nl1: BRA l1;\n@P1 BRA CC.T, a;\nNOP;\nEXIT;\n')]
    nv = 0
    for n, (i, text) in enumerate(src):
        full = deep or n >= len(src) - 3
        sites = token_sites(text)
        own = [text[a:b] for a, b in sites]
        own = own + [x.lower() for x in own] + [x.capitalize() for x in own] + [x + ' ' + x for x in own] + [x[:-1] for x in own] + [x + x[-1] for x in own]
        own = [x for x in dict.fromkeys(own) if len(x) < 24]
        wrap = [('', ''), ('NOP;\n', '\nEXIT;\n'), ('x: NOP; MOV R1, R2;\n', ' MOV R3, R4;')]
        for p in range(len(text) + 1):
            a, b = wrap[(n + p) % 3]
            if p < len(text) and (full or (p + n) % 3 == 0):
                specs.append(('b', ('%s/replace-%d' % (i, p), a + text[:p], text[p + 1:] + b), bud))
            if full or (p + n) % 6 == 1:
                specs.append(('b', ('%s/insert-%d' % (i, p), a + text[:p], text[p:] + b), bud))
            if p + 2 <= len(text) and (full or (p + n) % 6 == 4):
                specs.append(('b', ('%s/two-by-one-%d' % (i, p), a + text[:p], text[p + 2:] + b), bud))
        for k, (s, e) in enumerate(sites):
            a, b = wrap[(n + k) % 3]
            sets = [(PUNCT + own)[:255]]
            if deep:
                sets += [VOCAB[:250], VOCAB[250:]]
            else:
                sets = [(PUNCT[k % 2::2] + own + [VOCAB[(nv + q) % len(VOCAB)] for q in range(60)])[:255]]
                nv += 60
            for q, v in enumerate(sets):
                if v and (full or (k + n) % 4 == 0):
                    specs.append(('t', ('%s/token-%d-replaced-%d' % (i, k, q), a + text[:s], v, text[e:] + b), dict(bud, _cost=4)))
                if v and (full or (k + n) % 4 == 2):
                    specs.append(('t', ('%s/token-%d-preceded-%d' % (i, k, q), a + text[:s], v, text[s:] + b), dict(bud, _cost=4)))
        for k in range(len(sites) - 1):  # neighbours swapped
            (s, e), (s2, e2) = sites[k], sites[k + 1]
            if full or (k + n) % 4 == 1:
                specs.append(('t', ('%s/token-%d-swapped' % (i, k), text[:s], [text[s2:e2] + ' ' + text[s:e], text[s:e] + ' ' + text[s2:e2], text[s2:e2], text[s:e], ''], text[e2:]), bud))
    return [({}, parallel(specs))]


# ------------------------------------------------------------------ C13 white space
WS = b' \t\r\n'
BLANK = b' \t\r'


def same_result(a, b, maxw):
    """run b does what run a does"""
    eq = AND('ok%d' % b, '(= n%d n%d)' % (a, b), *['(or (bvule n%d %s) (= w%d_%d w%d_%d))' % (a, bv(k, 32), a, k, b, k) for k in range(maxw)])
    return '(ite ok%d %s %s)' % (a, eq, reject(b))


def token_texts(text):
    """texts of the tokens of an instruction text"""
    ts = ref.tokenize(text)
    ends = [t[2] for t in ts[1:]] + [len(text)]
    return [text[t[2]:e].strip() for t, e in zip(ts, ends)]


@ref.functools.lru_cache(None)
def gap_needed(a, b):
    """two tokens that read as something else without white space between them"""
    try:
        return [t[:2] for t in ref.tokenize(a + b)] != [t[:2] for t in ref.tokenize(a + ' ' + b)]
    except (ref.Reject, ref.Unspec):
        return True


class GapText:
    """a text with free white space bytes in some gaps, next to the original"""

    def __init__(self):
        self.holes, self.pieces = [], []

    def lit(self, s):
        self.pieces.append(s.encode('latin1').hex())

    def gap(self, n, chars=WS):
        for _ in range(n):
            h = 'g%d' % len(self.holes)
            self.holes.append({'name': h, 'set': chars.hex()})
            self.pieces.append({'h': h})

    def job(self, jid, original, maxw, **kw):
        return dict(id=jid, holes=self.holes, runs=[[original.encode('latin1').hex()], self.pieces], prop=same_result(0, 1, maxw), floats=[], maxw=maxw, fresh=True, **kw)


def gap_jobs(i, texts, n, deep, bud, fixed_gaps=()):
    """texts: the tokens; jobs in which the white space of the gaps is free"""
    jobs = []
    need = [gap_needed(a, b) for a, b in zip(texts, texts[1:])]
    original = ' '.join(texts)
    maxw = 4 * (1 + texts.count(';') // 3)

    def make(jid, free, fill, chars=WS):
        """free(gap) -> number of free bytes, or None: fill(gap)"""
        g = GapText()
        for k in range(-1, len(texts)):
            if k >= 0:
                g.lit(texts[k])
            w = free(k)
            if w is None:
                g.lit(fill(k))
            else:
                g.gap(w, chars)
        jobs.append(g.job(i + jid, original, maxw, **bud))

    def minimal(k):
        return ' ' if 0 <= k < len(need) and need[k] else ''
    fills = [minimal, lambda k: '\n', lambda k: '\t', lambda k: ' \r\n ', lambda k: minimal(k) if k % 2 else '\n\n', lambda k: '  \t']
    make('/every-gap', lambda k: 1, None, BLANK)
    for q, f in enumerate(fills if deep else [fills[n % 6], fills[(n + 1 + n // 6) % 6]]):
        make('/only-needed-%d' % q, lambda k: 1 if minimal(k) else None, f, BLANK)
    for k in range(-1, len(texts)):
        if deep or (k + n) % 3 == 0:
            make('/gap-%d' % k, lambda q: (3 if deep else 2) if q == k else None, fills[(n + k) % 6])
        if deep or (k + n) % 6 == 1:
            make('/gaps-%d' % k, lambda q: 1 if 0 <= q - k < 3 else None, fills[(n + k + 1) % 6])
    if deep:
        make('/every-gap-2', lambda k: 2, None, BLANK)
    return jobs


@prop('C13', 'every instruction form with its first and its last modifiers, plain and with guard, reuse flags and annotations, compared to the same text with single spaces: one free blank (space, tab, carriage return) '
      'in every gap between two tokens at once; two (thorough three) free white space bytes, line ends included, in one gap (quick: every third gap) and one in each of three neighbouring gaps, while the other gaps hold nothing where nothing is needed, '
      'line ends, tabs or mixtures in rotation; programs of several instructions with labels; blanks in and around option lines', 'longer white space; form feeds and vertical tabs, which are not white space in this language')
def c13(tier):
    deep = tier == 'thorough'
    bud = dict(budget=200 if deep else 60, qtimeout=60000)
    jobs = []
    for n, f in enumerate(FORMS):
        for last in (False, True):
            body = concrete(f, last)
            guard = '' if f.np or (n + last) % 2 else '@!P3 ' if last else '@PT '
            tail = ' @WAIT 5 @WB 2 @DEP 0 @Y' if (n + last) % 3 == 0 else ''
            jobs += gap_jobs(f.id + ('/last' if last else '/first'), token_texts(guard + body + tail + ';'), n, deep, bud)
    progs = ['MOV R1.reuse, R2; @P0 IADD R3, R4, -5; MOV R5, c[1][4];', 'NOP; EXIT; BRA 0x20; MOV R1, RZ @WB 1 @RB 2; FADD.FTZ R0, -|R1|, 1.5;', 'LDG.E R1, [R2+0x10]; STG.E [R2+-0x10], R1; FADD R1, R2, -1.25;']
    for n, p in enumerate(progs):
        jobs += gap_jobs('program/%d' % n, token_texts(p), n, True, bud)
    # labels: any white space after them, blank lines in front of them
    for w in range(0, 4 if deep else 3):
        for a, rest in enumerate(('BRA end;', '@P1 MOV R1, R2; BRA top;')):
            g = GapText()
            g.gap(w)
            g.lit('\ntop:')
            g.gap(w + 1)
            g.lit(rest)
            g.gap(w)
            g.lit('\nmid:')
            g.gap(w + 1)
            g.lit('BRA mid;')
            g.gap(w)
            g.lit('\nend:')
            g.gap(w + 1)
            jobs.append(g.job('labels/%d/%d' % (a, w), 'top: ' + rest + '\nmid: BRA mid;\nend:', 8, **bud))
    # option lines
    opts = [['.dksh', 'compute'], ['.num_gprs', '12'], ['.workgroup_size', '8', '4', '0x2'], ['.shared_memory', '0x100'], ['.local_memory', '32'], ['.type', 'compute']]
    for w in range(1, 4 if deep else 3):
        for k, o in enumerate(opts + [sum(opts[:3], [])]):
            lines = [o] if k < len(opts) else opts[:5]
            g = GapText()
            for l in lines:
                g.gap(w)
                for x in l:
                    g.lit(x)
                    g.gap(w, BLANK)
                g.lit('\n')
            g.lit('main:')
            g.gap(w)
            g.lit('MOV R1, R2;')
            base = ''.join(' '.join(l) + '\n' for l in lines) + 'main: MOV R1, R2;'
            jobs.append(g.job('options/%d/%d' % (k, w), base, 64, _cost=5, **bud))
    return [({}, jobs)]


# ------------------------------------------------------------------ C14 the container
class Options:
    """option lines with symbolic values and what they mean"""
    LIMIT = {'.num_gprs': 0x7fffffff, '.workgroup_size': 0x7fffffff, '.shared_memory': 0x7fffffff, '.local_memory': 0xffffff}

    def __init__(self, t):
        self.t = t
        self.v = {'.num_gprs': [bv(8)], '.workgroup_size': [bv(1)] * 3, '.shared_memory': [bv(0)], '.local_memory': [bv(0)]}

    def line(self, name, how=(9, ' -', '0x', 16), which=None):
        """one option; argument `which` (None: all) is symbolic"""
        t = self.t
        t.lit(name)
        vs = []
        for k in range(len(self.v[name])):
            t.lit(' ')
            if which is None or which == k:
                v = t.hexint(*how)
                t.in_range(v, 0, self.LIMIT[name])
            else:
                v = bv(17 + k)
                t.lit('%d' % (17 + k))
            vs.append(v)
        t.lit('\n')
        self.v[name] = vs

    def lead(self, ncode, entry):
        """words of the control section"""
        def align(v, a):
            return '(bvand (bvadd %s %s) %s)' % (v, bv(a - 1), bv((1 << 64) - a))
        pos = align(self.v['.local_memory'][0], 16)
        f = [bv(0x48534B44), bv(24), bv(256), bv((8 * ncode + 255) // 256 * 256), bv(24), bv(1), bv(5), bv(entry), self.v['.num_gprs'][0], bv(0), bv(0),
             '(bvadd (bvmul %s %s) %s)' % (pos, bv(32), bv(0x800)), *self.v['.workgroup_size'], align(self.v['.shared_memory'][0], 256), pos, bv(0), bv(0x800), bv(0)]
        f += [bv(0)] * (64 - len(f))
        return ['(bvor %s (bvshl %s %s))' % (f[k], f[k + 1], bv(32)) if f[k + 1] != bv(0) else f[k] for k in range(0, 64, 2)]


def code_words(n):
    return (n + 2) // 3 * 4


def dksh_program(n, b, style, symbolic=(), options=None, between=None, main='main:'):
    """n instructions with the label main in front of the b-th (None: no such label); options(o, t) writes option lines"""
    pr = Program()
    t = pr.t
    o = Options(t)
    if options:
        options(o, t)
    else:
        t.lit('.dksh compute\n')
    mv = FORM['MOV'][0]
    for i in range(n):
        if between and i == 1:
            between(o, t)
        if i == b:
            pr.lit(main + ['\n', ' ', '\n\t'][style % 3])
        elif style % 2:
            pr.lit('l%d:\n' % i)
        if i in symbolic:
            pr.insn(mv, plain(mv, reg_default='two'))
        else:
            filler(pr, i, [';\n', ';\r\n'][style % 2])
    if b is None or b % 3:
        t.valid.append('false')
    entry = 0 if b is None else address(b) - 8
    w = code_words(n)
    return pr, dict(lead=o.lead(w, entry), tail=-w % 32)


@prop('C14', 'programs of 1 to 40 (thorough 70) instructions with the entry point at every position (quick, beyond 13 instructions: at and around every bundle start), free registers around it, or without one; every subset and 24 orders of the four sized '
      'options with any signed nine-digit hexadecimal values, decimal and octal ones, and the container request at every place among them, in front of the first or the second instruction; every program type name and eleven other words; any four letters as '
      'the label in place of main; the container of three instructions of every form compared to their plain code', 'more instructions; options given twice; an entry point behind the last instruction')
def c14(tier):
    deep = tier == 'thorough'
    bud = dict(budget=200 if deep else 60, qtimeout=60000)
    jobs = []
    k = 0
    for n in range(1, 71 if deep else 41):
        for b in [None] + list(range(n)):
            if n > 13 and not deep and b is not None and not (b % 3 == 0 or (b + n) % 7 == 0):
                continue
            pr, kw = dksh_program(n, b, k, symbolic={(b or 0), n - 1})
            jobs.append(pr.job('layout/%d-instructions/main-at-%s' % (n, b), **bud, **kw))
            k += 1
    # options
    names = list(Options.LIMIT)
    combos = [c for r in range(0, 5) for c in itertools.permutations(names, r) if r < 3 or deep or hash_index(c) % 2 == 0 or r == 4]
    hows = [(9, ' -', '0x', 16), (8, '', '0x', 16), (10, ' -', '', 10), (11, '', '0', 8), (3, ' -', '', 10), (6, '+', '0x', 16)]
    for i, c in enumerate(combos):
        for at in (range(len(c) + 1) if deep else [i % (len(c) + 1)]):
            how = hows[i % len(hows)]
            free = i % max(1, len(c))

            def options(o, t):
                for q, nm in enumerate(c):
                    if q == at:
                        t.lit('.dksh compute\n')
                    # one free option next to fixed ones; hexadecimal ones are all free
                    if how[3] == 16 or q == free:
                        o.line(nm, how if how[3] == 16 or nm != '.workgroup_size' else how, None if how[3] == 16 else i % len(o.v[nm]))
                    else:
                        o.line(nm, (3, '', '0x', 16))
                if at == len(c):
                    t.lit('.dksh compute\n')
            late = i % 3 == 2
            pr, kw = dksh_program(4, 0 if i % 2 else 3, i, options=(lambda o, t: None) if late else options, between=options if late else None)
            jobs.append(pr.job('options/%d-%s/dksh-%d' % (i, '-'.join(x[1:4] for x in c), at), _cost=4, **bud, **kw))
    # types
    words = list(ref.TYPES) + ['Compute', 'COMPUTE', 'comput', 'computes', '5', 'R5', 'P1', '.compute', 'compute compute', '', ';']
    for how in ('.dksh ', '.type compute\n.dksh ', '.dksh compute\n.type ', '.dksh compute\n.dksh '):
        h = Template()
        h.lit(how)
        x = h.alts(words, 'ty')
        h.lit('\nmain:\nMOV R1, R2;\n')
        cases = [('(= %s %s)' % (x, bv(i, 8)), ref.assemble(how + wd + '\nmain:\nMOV R1, R2;\n')) for i, wd in enumerate(words)]
        p, maxw = result_prop(cases)
        jobs.append(dict(id='types/%s' % how.replace('\n', '/'), holes=h.holes, runs=[h.pieces], prop=p, floats=[], maxw=maxw, **bud))
    # the name of the entry point
    letters = 'abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ'
    for n, b in ((1, 0), (4, 3), (5, 0)):
        for ln in (3, 4, 5):
            pr = Program()
            t = pr.t
            t.lit('.dksh compute\n')
            o = Options(t)
            for i in range(n):
                if i == b:
                    hs = [t.set_hole(letters if q == 0 else letters + '_0123456789', 'nm') for q in range(ln)]
                    [t.use(h) for h in hs]
                    t.lit(': ')
                filler(pr, i)
            t.valid.append(AND(*['(= %s %s)' % (h, bv(ord(ch), 8)) for h, ch in zip(hs, 'main')]) if ln == 4 else 'false')
            jobs.append(pr.job('entry-name/%d-letters/%d' % (ln, n), lead=o.lead(code_words(n), address(b) - 8), tail=-code_words(n) % 32, **bud))
    # the same code with and without the container
    fs = FORMS
    for i in range(0, len(fs), 3 if not deep else 1):
        body = ''.join(concrete(f, (i // 3) % 2) + ';\n' for f in fs[i:i + 3])
        g = GapText()
        g.lit('.dksh compute\n.num_gprs ')
        holes = []
        for q in range(2):
            g.gap(1, b'123456789')
        g.lit('\nmain: ' + body)
        n = 4
        same = AND('ok1', '(= n1 %s)' % bv(64, 32), *['(= w1_%d %s)' % (32 + q, 'w0_%d' % q if q < n else bv(0)) for q in range(32)])
        jobs.append(dict(id='plain/%d' % i, holes=g.holes, runs=[[('main: ' + body).encode().hex()], g.pieces], prop='(ite ok0 %s %s)' % (same, reject(1)), floats=[], maxw=64, fresh=True, **bud))
    return [({}, jobs)]


def hash_index(c):
    return sum((i + 1) * len(x) for i, x in enumerate(c))


# ------------------------------------------------------------------ C15 options
OPTEXTS = ['.num_gprs 24\nMOV R1, R2;', 'NOP;\n.shared_memory 0x10\nMOV R1, R2;', '.local_memory 16\n@P1 EXIT;', '.workgroup_size 16 0x8 4\nMOV R1, R2;', 'x:\n.type compute\nBRA x;\n', '.type vertex\nNOP;', '.type tess_control\nNOP;',
           'a:\n.num_gprs 7\n.type compute\n\n.shared_memory 9\nb: BRA a;\nNOP; NOP;\n.local_memory 1\nBRA b;\n', '.dksh compute\n.num_gprs 64\nmain:\nEXIT;\n', '.dksh compute\n.local_memory 0x8001\nmain: NOP;',
           '.dksh compute\n.shared_memory 257\n.workgroup_size 1 2 3\nmain:\nMOV R1, R2;\nNOP;']
OPTWORDS = ['', '.num_gprs', '.dksh', '.type', '.workgroup_size', '.shared_memory', '.local_memory', '.num_gpr', '.num_gprss', '.NUM_GPRS', '.', 'num_gprs', 'compute', 'vertex', 'pixel', 'hull', '0', '5', '-1', '0x7fffffff', '0x80000000', '0xffffff',
            '0x1000000', '4294967296', '1.5', '5 6', '5,', ',', ';', 'NOP;', '+5', '-0', '010', '08', 'R1', 'P1', '\n', '5\n', '\n5', '5\n\n', 'x:', '\nx:\n', '@', '-', '[5]', '|', '"5"', '0x', '16 8 4', '16 8 4 2', '16 8', '.num_gprs 5\n', '.type compute\n', '.type compute']


def opt_mutation(jid, pre, alts, post, **kw):
    """like token_mutation, but the alternatives may hold line ends and nothing is added around them except blanks behind"""
    alts = list(dict.fromkeys(alts))
    L = max(map(len, alts))
    prop, maxw = result_prop([('(= x0 %s)' % bv(i, 8), ref.assemble(pre + a.ljust(L) + post)) for i, a in enumerate(alts)])
    return dict(id=jid, holes=[{'name': 'x0', 'alts': [a.encode().hex() for a in alts]}], runs=[[pre.encode().hex(), {'h': 'x0'}, post.encode().hex()]], prop=prop, floats=[], maxw=maxw, merge=False, anyfloat=True, **kw)


@prop('C15', 'eleven texts with every option, with and without the container, in which any byte at any place is replaced by or there is inserted any byte, two bytes are replaced by any, and any token is deleted, replaced or preceded by any of 54 options, values and foreign '
      'tokens; every option with values of any sign and 1 to 16 hexadecimal, 10 decimal or 11 octal digits in each argument; programs of seven instructions with labels and branches of which every gap holds any option or none, compared to the program without them',
      'options given twice; labels on the line of an option; longer changes')
def c15(tier):
    deep = tier == 'thorough'
    bud = dict(budget=200 if deep else 60, qtimeout=60000)
    specs = []
    for n, text in enumerate(OPTEXTS):
        for p in range(len(text) + 1):
            if p < len(text):
                specs.append(('b', ('%d/replace-%d' % (n, p), text[:p], text[p + 1:]), bud))
            specs.append(('b', ('%d/insert-%d' % (n, p), text[:p], text[p:]), bud))
            if p + 2 <= len(text):
                specs.append(('b', ('%d/two-by-one-%d' % (n, p), text[:p], text[p + 2:]), bud))
        for k, (s, e) in enumerate(token_sites(text)):
            specs.append(('o', ('%d/token-%d-replaced' % (n, k), text[:s], OPTWORDS, text[e:]), bud))
            specs.append(('o', ('%d/token-%d-preceded' % (n, k), text[:s], OPTWORDS, text[s:]), bud))
    jobs = parallel(specs)
    # values
    for name in Options.LIMIT:
        for which in range(3 if name == '.workgroup_size' else 1):
            for how in [(d, ' -', '0x', 16) for d in (range(1, 17) if deep else (1, 2, 5, 6, 7, 8, 9, 12, 16))] + [(10, ' -', '', 10), (4, ' -', '', 10), (11, '', '0', 8), (7, '-', '0', 8), (8, '+', '0X', 'X')]:
                for dksh in (False, True):
                    pr = Program()
                    t = pr.t
                    o = Options(t)
                    if dksh:
                        t.lit('.dksh compute\n')
                    o.line(name, how, which)
                    pr.lit('main:\n')
                    filler(pr, which)
                    kw = dict(lead=o.lead(4, 0), tail=28) if dksh else {}
                    jobs.append(pr.job('values/%s-%d/%s%s%d%s' % (name, which, how[1].strip(), how[2], how[0], '/dksh' if dksh else ''), **bud, **kw))
    # options between instructions
    lines = ['', '.num_gprs 9', '.workgroup_size 4 5 6', '.shared_memory 77', '.local_memory 99']
    L = max(map(len, lines))
    prog = ['a:\n', 'BRA d;\n', '@P0 BRA CC.LT, a;\n', 'b:\n', 'MOV R1.reuse, R2 @WAIT 3;\n', 'IADD R1, R2, R3.reuse; BRA b;\n', 'c: ', 'BRA c;\n', 'd:\n', 'CAL a;\n', 'EXIT;\n']
    for gaps in ([0], [1], [2], [4], [5], [7], [8], [9], [0, 2, 8], [1, 5, 9], [0, 1, 2, 3], [4, 8, 9, 10], [2, 3, 4, 5]):
        for ty in (None, '.type compute\n'):
            g = GapText()
            pieces, holes = [], []
            for k, x in enumerate(prog):
                if k in gaps:
                    h = 'x%d' % len(holes)
                    own = lines[1 + len(holes):2 + len(holes)] + [''] if len(gaps) > 1 else lines
                    holes.append({'name': h, 'alts': [(a.ljust(L) + '\n').encode().hex() for a in own]})
                    pieces.append({'h': h})
                    if ty and k == gaps[-1]:
                        pieces.append(ty.encode().hex())
                pieces.append(x.encode().hex())
            # a label in front of an instruction starts its line
            jobs.append(dict(id='between/%s%s' % ('-'.join(map(str, gaps)), '/type' if ty else ''), holes=holes, runs=[[''.join(prog).encode().hex()], pieces], prop=same_result(0, 1, 12), floats=[], maxw=12, fresh=True, **bud))
    return [({}, jobs)]


# ------------------------------------------------------------------ C17 positions of diagnostics
class Position:
    """follows a text and keeps the line and column (16-bit expressions or numbers, zero-based)"""

    def __init__(self):
        self.holes, self.pieces = [], []
        self.line, self.col = 0, 0
        self.lets = []

    def e(self, x):
        return bv(x, 16) if isinstance(x, int) else x

    def lit(self, s):
        self.pieces.append(s.encode('latin1').hex())
        for c in s:
            if c == '\n':
                self.line = self.line + 1 if isinstance(self.line, int) else '(bvadd %s %s)' % (self.line, bv(1, 16))
                self.col = 0
            else:
                d = 4 if c == '\t' else 1
                if isinstance(self.col, int):
                    self.col += d
                elif self.col.startswith('(bvadd c') and self.col.endswith('16))'):
                    b, k = self.col[7:-1].split(' ', 1)
                    self.col = '(bvadd %s %s)' % (b, bv(int(k[5:].split(' ')[0]) + d, 16))
                else:
                    self.col = '(bvadd %s %s)' % (self.col, bv(d, 16))

    def name(self, base, e):
        n = '%s%d' % (base, len(self.lets))
        self.lets.append((n, e))
        return n

    def gap(self, n, chars=WS):
        for _ in range(n):
            h = 'g%d' % len(self.holes)
            self.holes.append({'name': h, 'set': chars.hex()})
            self.pieces.append({'h': h})
            nl, tab = '(= %s #x0a)' % h, '(= %s #x09)' % h
            self.line = self.name('l', '(bvadd %s (ite %s %s %s))' % (self.e(self.line), nl, bv(1, 16), bv(0, 16)))
            self.col = self.name('c', '(ite %s %s (bvadd %s (ite %s %s %s)))' % (nl, bv(0, 16), self.e(self.col), tab, bv(4, 16), bv(1, 16)))

    def mark(self):
        self.at = (self.line, self.col)

    def job(self, jid, **kw):
        """the diagnostic names the marked place"""
        def number(x, base):
            x = self.name(base, '(bvadd %s %s)' % (self.e(x), bv(1, 16)))
            ch = lambda q: '((_ extract 7 0) (bvadd (bvurem (bvudiv %s %s) %s) %s))' % (x, bv(q, 16), bv(10, 16), bv(48, 16))
            return x, ch
        l, lc = number(self.at[0], 'ln')
        c, cc = number(self.at[1], 'cn')
        head = b'\33[1mvp.s:\33[1m'
        alts = []
        for ld in (1, 2, 3):
            for cd in (1, 2, 3):
                rng = lambda x, d: AND('(bvuge %s %s)' % (x, bv(10 ** (d - 1), 16)), '(bvult %s %s)' % (x, bv(10 ** d, 16)))
                want = [bv(b, 8) for b in head] + [lc(10 ** k) for k in range(ld)][::-1] + [bv(58, 8)] + [cc(10 ** k) for k in range(cd)][::-1] + [bv(58, 8), bv(32, 8)]
                alts.append(AND(rng(l, ld), rng(c, cd), '(bvuge en0 %s)' % bv(len(want), 32), *['(= e0_%d %s)' % (k, w) for k, w in enumerate(want)]))
        e = AND(reject(), OR(*alts))
        for n, v in reversed(self.lets):
            e = '(let ((%s %s)) %s)' % (n, v, e)
        return dict(id=jid, holes=self.holes, runs=[self.pieces], prop=e, floats=[], maxw=0, maxe=40, merge=False, exactprint=True, _expect='diagnostic at the marked token', **kw)


# what precedes the offending token, the token, the rest
BADTEXTS = [('', 'FOO', ' R1, R2;'), ('', 'mov', ' R1, R2;'), ('', 'R1', ';'), ('', ';', ''), ('', '5', ';'), ('@', 'R0', ' NOP;'), ('@', 'P7', ' NOP;'), ('@', '5', ' NOP;'), ('@P1 ', '@', 'P2 NOP;'), ('@P1 ', 'FOO', ';'), ('@P1 ', '5', ';'),
            ('MOV R1, ', 'R255', ';'), ('MOV ', 'R999', ', R2;'), ('MOV R1 ', 'R2', ';'), ('MOV R1, R2 ', 'R3', ';'), ('MOV R1, R2', ',', ';'), ('IADD R1, R2, ', '12x', ';'), ('IADD R1, R2, ', '0x', ';'), ('FADD R1, R2, ', '1.5x', ';'),
            ('IADD R1, R2, ', '99999999999999999999', ';'), ('BRA ', 'nowhere', ';'), ('NOP', ',', ';'), ('EXIT ', 'R1', ';'), ('MOV R1, R2 @WAIT ', '16', ';'), ('MOV R1, R2 @WB ', '6', ';'), ('MOV R1, R2 @RB ', '-1', ';'),
            ('MOV R1, R2 @DEP 1 @DEP ', '6', ';'), ('MOV R1, R2 @WAIT ', 'R1', ';'), ('MOV R1, R2 @Y @', 'FOO', ';'), ('S2R R1, ', 'SR_FOO', ';'), ('IADD32I ', '5', ', R2, 1;'), ('MOV32I R1, ', '0x100000000', ';'), ('ISETP.LT.AND P0, ', 'P8', ', R1, R2, PT;'),
            ('NOP;\nMOV R1, R2;\n', 'FOO', ';'), ('x: NOP; @!PT MOV R1, R2; ', 'FOO', ';'), ('\nl1:\nBRA l1;\nl2: ', 'FOO', ';'),
            ('', '1.5', ';'), ('MOV ', '2.5', ', R2;'), ('MOV R1, R2 @WAIT ', '1.5', ';'), ('NOP ', '0.25', ';'), ('@', '1.5', ' NOP;'), ('MOV R1, R2 @', '1.5', ';'), ('BRA ', '1.5', ';'), ('', '[', 'R1];'), ('', '-', 'R1;'), ('', '|', 'R1|;'), ('', '~', 'R1;'), ('MOV R1, ', ']', ';'),
            ('LDG R1, [', '1.5', '];'), ('LDG R1, ', 'R2', ';'),
            ('STG [R2+4', ',', ' R1;'), ('LDG R1, [R2+4]', ']', ';'), ('FADD R1, |R2', ',', ' R3;'), ('DADD R1, R2, ', ';', ''), ('FADD R1, R2, R3 ', '1.5', ';'), ('MOV R1, R2 @WAIT', ';', ''), ('MOV R1, R2 @', ';', '')]
BADOPTIONS = [('', '.foo', '\nNOP;'), ('.num_gprs ', '-1', '\nNOP;'), ('.num_gprs ', 'R1', '\nNOP;'), ('.type ', 'foo', '\nNOP;'), ('.num_gprs 5 ', 'NOP', ';'), ('.workgroup_size 1 2 ', '2147483648', '\nNOP;'), ('.workgroup_size 1 ', 'x', '\nNOP;'),
              ('.local_memory ', '0x1000000', '\nNOP;'), ('.shared_memory ', '1.5', '\nNOP;'), ('.type compute ', '.num_gprs', ' 5\nNOP;'), ('.dksh ', 'shader', '\nNOP;'), ('.num_gprs 5\n.type compute\n\t', '.bar', '\n')]
FOREIGN = ['1.5', '7', 'R1', 'P1', '[', ']', '+', '-', '|', '!', '~', '0x10', '.5', 'PT']
LEADS = ['', 'MOV R1, R2;\n', '\n\n', '\t', 'a:\n', 'NOP; NOP;\n\tNOP; ', '.num_gprs 5\n', '\r\n', 'x: y: ', 'MOV R1,\n\tR2 @WAIT 5;\n\n', '\n' * 8, 'NOP;\n' * 9 + '    ', '\n' * 98 + 'NOP;', ' ' * 95, '\t' * 3 + 'BRA 0x8; l_1: ', 'FADD R1, R2,\n 1.5;\t',
         'IADD R1, R2, -5; ', '@!P3 MOV\n R1,\n R2\n ;\n']


@prop('C17', '57 kinds of wrong instruction and twelve kinds of wrong option, one of fifteen foreign tokens at the end and a register out of range in every register operand of every form; in front of them one of eighteen lead-ins (instructions, labels, options, tabs, up to 98 '
      'line ends or 95 columns) and up to three free white space bytes, and up to two free ones in front of the offending token', 'diagnostics that are not about a token; which token is to blame where several can be; longer white space')
def c17(tier):
    deep = tier == 'thorough'
    bud = dict(budget=200 if deep else 60, qtimeout=60000)
    jobs = []

    def add(jid, lead, w1, pre, w2, tok, post, chars=WS):
        p = Position()
        p.lit(lead)
        p.gap(w1)
        p.lit(pre)
        p.gap(w2, chars)
        p.mark()
        p.lit(tok + post)
        jobs.append(p.job(jid, **bud))
    k = 0
    for kind, table in (('text', BADTEXTS), ('option', BADOPTIONS)):
        for n, (pre, tok, post) in enumerate(table):
            # an option's arguments stay on its line
            inside = WS if kind == 'text' or not pre or pre.endswith('\t') else BLANK
            for m, lead in enumerate(LEADS):
                if deep or (m + n) % 3 == 0 or m < 2:
                    if kind == 'option' and 'type' in lead + pre:
                        pass
                    add('%s-%d/lead-%d/2-1' % (kind, n, m), lead, 2, pre, 1, tok, post, inside)
            add('%s-%d/3-0' % (kind, n), '', 3, pre, 0, tok, post)
            add('%s-%d/0-2' % (kind, n), '', 0, pre, 2, tok, post, inside)
            if deep:
                add('%s-%d/4-0' % (kind, n), '', 4, pre, 0, tok, post)
                add('%s-%d/2-2' % (kind, n), 'NOP;', 2, pre, 2, tok, post, inside)
    for n, f in enumerate(FORMS):
        for last in (False, True):
            text = concrete(f, last)
            if ref.assemble(text + ';') in (None, ref.UNSPEC):
                continue
            lead = LEADS[(n + last) % len(LEADS)]
            add('%s/%d/end' % (f.id, last), lead, 1, text, 2, 'FOO', ';')
            # not where an operand without a comma may follow
            more = any(ref.assemble('%s %s;' % (text, x)) is not None for x in ('7', '-7', 'R1', '-R1', '~R1', '|R1|', 'P1', '!P1', '1.5', '-1.5', '[R1]', '+7'))
            for j, tok in enumerate(FOREIGN):
                if not more and (deep or (n + last + j) % 4 == 0):
                    add('%s/%d/end-%d' % (f.id, last, j), LEADS[(n + j) % len(LEADS)], 1, text + ' ', 1, tok, ';')
            for m in re.finditer(r'\bR(7|12)\b', text):
                k += 1
                if deep or k % 2 == 0:
                    add('%s/%d/register-%d' % (f.id, last, m.start()), LEADS[k % len(LEADS)], 1, text[:m.start()], 1, 'R255', text[m.end():] + ';')
    return [({}, jobs)]


# ------------------------------------------------------------------ C19 independence
def insn_template(f, prefix, free_mods, last=False, sched=False):
    """(template with symbolic operands and, if asked for, modifiers)"""
    t = Template(prefix)
    fixed = {} if free_mods else {p: (len(a) - 1 if last else 0) for p, a in enum_slots(f)}
    if sched:
        t.alts(['', '@P2 ', '@!P0 ', '@PT '] if not f.np else ['', '@PT '], 'gd')
    build(f, Cfg(fixed=fixed, reg_default='two', int_default='inside', flt_default='one', pred_mode='few', reuse=True), t)
    if sched:
        t.lit(' ')
        t.alts([a for a, _ in SCHEDS], 'sh')
    t.lit(';')
    return t


def neighbours_job(jid, ts, order, bud):
    """every instruction alone, then all of them in one program in the given order: same words and scheduling slots; then the first again"""
    runs = [t.pieces for t in ts]
    sep = ['0a', '20', '0d0a']
    prog = []
    for k, i in enumerate(order):
        prog += ts[i].pieces + [sep[k % 3]]
    n = len(ts)
    runs = runs + [prog, ts[0].pieces]
    words = []
    for b in range(0, len(order), 3):
        grp = order[b:b + 3]
        slots = ['(bvand w%d_0 %s)' % (i, bv(0x1fffff)) for i in grp] + [bv(0x7E0)] * (3 - len(grp))
        words.append('(bvor %s (bvor (bvshl %s %s) (bvshl %s %s)))' % (slots[0], slots[1], bv(21), slots[2], bv(42)))
        words += ['w%d_1' % i for i in grp]
    while len(words) % 4:
        words.append(bv(NOPWORD))
    good = AND('ok%d' % n, '(= n%d %s)' % (n, bv(len(words), 32)), *['(= w%d_%d %s)' % (n, k, w) for k, w in enumerate(words)])
    alone = AND(*['ok%d' % i for i in range(n)])
    prop = AND('(ite %s %s %s)' % (alone, good, reject(n)), same_result(0, n + 1, 4))
    return dict(id=jid, holes=[h for t in ts for h in t.holes], runs=runs, prop=prop, floats=[], maxw=max(4, len(words)), **bud)


HISTORY = ['x: BRA x;\n', 'BRA x;', 'NOP;\nx:\nNOP;\ny: BRA y;\n', 'BRA y;\nx: y: EXIT;', '.type compute\nNOP;', '.dksh compute\n.num_gprs 77\nmain: NOP;\n', '.dksh compute\nmain:\nEXIT;', '.num_gprs 5\n.workgroup_size 2 3 4\nNOP;', '.shared_memory 700\nMOV R1, R2;',
           '.local_memory 900\nMOV R1, R2;', 'main:\nMOV R1, R2.reuse @WAIT 7 @WB 1 @Y;', '@P3 MOV R1, R2;', 'MOV R1, R2;', '', '\n\n\t', 'NOP; NOP; NOP; NOP;', 'FOO;', '\n  MOV R1, R2', '.type vertex\nNOP;', '.dksh compute\n.shared_memory 5\n.local_memory 6\nmain: EXIT;', '.dksh compute\nNOP; ',
           '.type compute\n.dksh compute\nmain: NOP;', 'main: FADD R1, R2, 1.5;\nBRA main;\nx:', 'IADD R1, R2, 99999999999999999999;', 'MOV R1, 0x7f @DEP 1 @DEP 1;', 'BRA main;', '.dksh compute\nMOV R1, R2;\nMOV R1, R2;\nMOV R1, R2;\nmain: BRA main;\n', 'SHL R1, R2, 5;\ny:\nBRA 0x8;']


@prop('C19', 'pairs of neighbouring instruction forms (quick: three partners per form, thorough: twelve) with free registers, literals, reuse flags, guards and annotations, with all modifiers of one of them free as well, alone and in '
      'programs of three and five instructions; every form between branches and labels, against a NOP in its place; the same texts in the same memory; sequences of three (thorough four) calls in one process, each any of 28 texts with labels, options, the container, annotations and errors, and the first of them again at the end',
      'longer histories; calls from several threads at once')
def c19(tier):
    deep = tier == 'thorough'
    bud = dict(budget=200 if deep else 60, qtimeout=60000)
    jobs = []
    fs = [f for f in FORMS if 'label' not in f.slots and not f.mn in ('BRA', 'CAL')]
    n = len(fs)
    # the same form with free operands, with other modifiers, and again, all texts in the same place
    for i, f in enumerate(fs):
        es = enum_slots(f)
        most = max([len(a) for _, a in es] or [1])
        for q in range(most if deep else 1):
            A = insn_template(f, 'f', HEAVY.get(f.id, 1) < 8 and f.mn not in ('HSET2', 'HSETP2', 'VSETP', 'VMNMX', 'VMAD'), False)
            B = Template('g')
            build(f, Cfg(fixed={p: (q + 1) % len(a) for p, a in es}, reg_default='two', int_default='inside', flt_default='one', pred_mode='few', reuse=True), B)
            B.lit(';')
            jobs.append(dict(id='%s/same-place/%d' % (f.id, q), holes=A.holes + B.holes, runs=[A.pieces, B.pieces, A.pieces], prop=same_result(0, 2, 4), floats=[], maxw=4, shared=True, _cost=5, **bud))
    # what precedes or follows a branch does not move it: as with a NOP in its place
    for i, f in enumerate(fs):
        free = HEAVY.get(f.id, 1) < 8 and f.mn not in ('HSET2', 'HSETP2', 'VSETP', 'VMNMX', 'VMAD')
        for last in (False, True) if deep or not free else (i % 2 == 0,):
            T = insn_template(f, 'f', free, last)
            text = lambda x: ['x: BRA 0x10;\n'.encode().hex()] + x + ['\nBRA y;\ny: BRA 0x10;\nBRA x; '.encode().hex()]
            same = AND('(= n0 n1)', *['(= w0_%d w1_%d)' % (k, k) for k in (1, 3, 5, 6)])
            jobs.append(dict(id='%s/%d/branch' % (f.id, last), holes=T.holes, runs=[text(T.pieces), text(['NOP;'.encode().hex()])], prop=AND('ok1', OR(reject(), AND('ok0', same))), floats=[], maxw=8, _cost=9 if free else 1, **bud))
    strides = [1, 37, 101] if not deep else [1, 2, 5, 11, 23, 37, 53, 79, 101, 127, 151, 199]
    for i, f in enumerate(fs):
        for q, st in enumerate(strides):
            g = fs[(i + st) % n]
            mods = (q == 0 and HEAVY.get(f.id, 1) < 8 and f.mn not in ('HSET2', 'HSETP2', 'VSETP', 'VMNMX', 'VMAD')) or deep
            ts = [insn_template(f, 'f', mods and not deep, (i + q) % 2 == 0, not mods or deep), insn_template(g, 'g', False, (i + q) % 3 == 0)]
            order = [[0, 1, 0], [1, 0, 1, 1, 0], [0, 1], [1, 0, 0, 1]][(i + q) % 4]
            jobs.append(neighbours_job('%s+%s/%s%s' % (f.id, g.id, ''.join(map(str, order)), '/modifiers' if mods and not deep else ''), ts, order, dict(bud, _cost=9 if mods else 1)))
    # histories of calls
    L = max(map(len, HISTORY))
    same = [h.encode().hex() for h in HISTORY]
    for i, a in enumerate(HISTORY):
        holes = [{'name': 'x0', 'alts': same}]
        first = [a.encode().hex()]
        jobs.append(dict(id='calls/%d-any-%d' % (i, i), holes=holes, runs=[first, [{'h': 'x0'}], first], prop=same_result(0, 2, 64), floats=[], maxw=64, merge=False, **bud))
        jobs.append(dict(id='calls/%d-any-%d/same-place' % (i, i), holes=holes, runs=[first, [{'h': 'x0'}], first], prop=same_result(0, 2, 64), floats=[], maxw=64, merge=False, shared=True, **bud))
        if deep or i % 3 == 0:
            holes = [{'name': 'x0', 'alts': same}, {'name': 'x1', 'alts': same}]
            jobs.append(dict(id='calls/%d-any-any-%d' % (i, i), holes=holes, runs=[first, [{'h': 'x0'}], [{'h': 'x1'}], first], prop=same_result(0, 3, 64), floats=[], maxw=64, _cost=9, merge=False, **bud))
    return [({}, jobs)]


# ------------------------------------------------------------------ C18 command line
CLIARGS = ['ii', '-o', 'oo', '-x', 'xx']


def cli_expect(args):
    """what the argument list means: (input, output), None for a wrong list, '?' where the documentation is silent"""
    inp = out = None
    k = 0
    while k < len(args):
        a = args[k]
        if a == '-o':
            if out is not None or k + 1 == len(args):
                return None
            k += 1
            if args[k] == '-o':
                return '?'
            out = args[k]
        elif inp is not None:
            return None
        else:
            inp = a
        k += 1
    return (inp, out) if inp and out else None


CLIFAIL = '(and ex0 msg0 (not (= code0 #x00000000)))'
CLIKEPT = '(and (= os0 #x00000000) (= on0 #x00000003) (= o0_0 #x4f) (= o0_1 #x4c) (= o0_2 #x44))'


def cli_bytes(words):
    """the output file holds exactly these words (SMT terms)"""
    es = ['(= on0 %s)' % bv(8 * len(words), 32)]
    for i, w in enumerate(words):
        es += ['(= o0_%d ((_ extract %d %d) %s))' % (8 * i + k, 8 * k + 7, 8 * k, w) for k in range(8)]
    return AND('ex0', '(= code0 #x00000000)', '(= os0 #x00000001)', *es)


def cli_job(jid, contents, prop, args=('ii', '-o', 'oo'), fault='0', holes=(), maxo=64, **kw):
    """contents, fault and args: text or pieces"""
    P = lambda x: [x.encode('latin1').hex()] if isinstance(x, str) else list(x)
    runs = [P(fault) + P(contents), P('nxas')] + [P(a) for a in args]
    j = dict(id=jid, mode='cli', runs=runs, holes=list(holes), prop=prop, floats=[], maxo=maxo, maxw=1)
    j.update(kw)
    return j


def cli_program(n, pad=0, where='front'):
    """(template, expected words) of a program of n instructions with free operands in a few of them, padded to a size with blank lines"""
    pr = Program()
    free = {0, n // 2, n - 1}
    f = next(f for f in FORMS if f.mn == 'IADD3' and not any(s in ('i20', 'cb') for s in f.slots))
    fixed = {p: 0 for p, _ in enum_slots(f)}
    for k in range(n):
        pr.insn(f, Cfg(fixed=fixed, reg_default='low' if k in free else 7), end=';\n' if k < n - 1 else ';')
    t = pr.t
    if pad:
        L = sum(len(p) // 2 if isinstance(p, str) else piece_len(t, p) for p in t.pieces)
        assert L <= pad, (L, pad)
        blank = ' ' * (pad - L)
        if where == 'front':
            t.pieces.insert(0, blank.encode().hex())
        else:
            t.pieces.append(blank.encode().hex())
    return pr


def piece_len(t, p):
    h = next(h for h in t.holes if h['name'] == p['h'])
    return max(len(a) // 2 for a in h['alts']) if 'alts' in h else 1


@prop('C18', 'every argument list of up to five (thorough: six) arguments from {ii, -o, oo, -x, xx}; input files of up to 12, and of 30, instructions with free operands and of 2^k-1, 2^k, 2^k+1 bytes for k from 7 to 16 (thorough: 18) with the instructions at either end; '
      'inputs with any byte at one place; any one of seven injected faults (opening, reading at once, reading after half, opening the output, writing at once, after half, closing) with an accepted and a rejected program',
      'other file names, several faults in one run, files that change while they are read, input and output being the same file',
      ['the stream classes and stdio functions are stand-ins over a model of the file system (engine/shim, engine/cli.cpp): bytes that are written reach the file when the stream is flushed or closed'])
def c18(tier):
    deep = tier == 'thorough'
    bud = dict(budget=200 if deep else 60, qtimeout=60000)
    jobs = []
    nop = [bv(DEFSCHED), bv(NOPWORD), bv(NOPWORD), bv(NOPWORD)]
    alts = [a.encode().hex() for a in CLIARGS]
    # arguments
    for n in range(7 if deep else 6):
        good, other, same, unspec = [], [], [], []
        for c in itertools.product(range(len(CLIARGS)), repeat=n):
            e = cli_expect([CLIARGS[i] for i in c])
            t = AND(*['(= a%d %s)' % (k, bv(i, 8)) for k, i in enumerate(c)])
            if e == '?':
                unspec.append(t)
            elif e and e[0] == 'ii':
                (good if e[1] == 'oo' else unspec if e[1] == 'ii' else other).append(t)
        O = lambda l: '(or false %s)' % ' '.join(l)
        p = '(ite %s true (ite %s %s (ite %s %s (and %s %s))))' % (O(unspec), O(good), cli_bytes(nop), O(other), '(and ex0 (= code0 #x00000000) (= os0 #x00000002) (= on0 #x00000003))', CLIFAIL, CLIKEPT)
        jobs.append(cli_job('arguments/%d' % n, 'NOP;', p, [[{'h': 'a%d' % k}] for k in range(n)], holes=[{'name': 'a%d' % k, 'alts': alts} for k in range(n)], _cost=10 ** n, merge=False, **bud))
    # contents
    def content(jid, pr, **kw):
        t = pr.t
        ws = pr.layout()
        for order, args in (('', ('ii', '-o', 'oo')), ('/output-first', ('-o', 'oo', 'ii'))):
            valid = AND(*t.valid) if t.valid else 'true'
            p = '(ite %s %s (and %s %s))' % (valid, cli_bytes(ws), CLIFAIL, CLIKEPT)
            if t.assume:
                p = '(=> %s %s)' % (AND(*t.assume), p)
            jobs.append(cli_job(jid + order, t.pieces, t.wrap(p), args, holes=t.holes, maxo=8 * len(ws), defs=t.def_text(), **dict(bud, **kw)))
            if not deep and order == '':
                break
    for n in (1, 2, 3, 4, 5, 6, 7, 9, 12) + ((13, 14, 15, 30, 60) if deep else (30,)):
        content('contents/%d-instructions' % n, cli_program(n))
    for size in sorted({2 ** k + d for k in range(7, 19 if deep else 17) for d in (-1, 0, 1)}):
        for where in ('front', 'back'):
            content('contents/%d-bytes-%s' % (size, where), cli_program(3, size, where))
    jobs.append(cli_job('contents/empty', '', AND('ex0', '(= code0 #x00000000)', '(= os0 #x00000001)', '(= on0 #x00000000)'), **bud))
    # any byte at one place: the reference decides which bytes are accepted
    base = 'NOP;\nMOV R1, R2;\n'
    for k in range(len(base) + 1):
        yes = by_words(base[:k], base[k:])
        p = 'true'
        cases = []
        silent = []
        for words, bytes_ in yes.items():
            c = '(or false %s)' % ' '.join('(= x0 %s)' % bv(b, 8) for b in bytes_)
            if words == '?':
                silent.append(c)
            elif words is not None:
                cases.append((c, cli_bytes([bv(w) for w in words])))
        p = '(and %s %s)' % (CLIFAIL, CLIKEPT)
        for c, e in cases:
            p = '(ite %s %s %s)' % (c, e, p)
        for c in silent:
            p = '(or %s %s)' % (c, p)
        jobs.append(cli_job('contents/byte-%d' % k, [base[:k].encode().hex(), {'h': 'x0'}, base[k:].encode().hex()], p, holes=[{'name': 'x0', 'set': bytes(range(256)).hex()}], **bud))
    # faults
    F = [{'name': 'ft', 'alts': ['%02x' % (48 + i) for i in range(8)]}]
    reading = '(or %s)' % ' '.join('(= ft %s)' % bv(i, 8) for i in (1, 2, 3))
    for nm, pr in (('small', cli_program(3)), ('large', cli_program(3, 5000, 'back')), ('output-4096', cli_program(390 if deep else 90))):
        t = pr.t
        ws = pr.layout()
        p = '(ite (= ft #x00) %s (and %s (=> %s %s)))' % (cli_bytes(ws), CLIFAIL, reading, CLIKEPT)
        assume = t.assume + t.valid
        if assume:
            p = '(=> %s %s)' % (AND(*assume), p)
        jobs.append(cli_job('faults/accepted-%s' % nm, t.pieces, t.wrap(p), fault=[{'h': 'ft'}], holes=F + t.holes, maxo=8 * len(ws), defs=t.def_text(), _cost=20, merge=False, **bud))
    for nm, text in (('mnemonic', 'NOP;\nFOO;\n'), ('unfinished', 'NOP;\nMOV R1, R2'), ('label', 'BRA x;\n'), ('late', 'NOP;\n' * 70 + 'MOV R1, R255;')):
        jobs.append(cli_job('faults/rejected-%s' % nm, text, '(and %s %s)' % (CLIFAIL, CLIKEPT), fault=[{'h': 'ft'}], holes=F, merge=False, **bud))
    # the diagnostic names the file
    names = '(or %s)' % ' '.join('(and (= e0_%d #x69) (= e0_%d #x69) (= e0_%d #x3a))' % (k, k + 1, k + 2) for k in range(12))
    jobs.append(cli_job('diagnostic/name', ['', {'h': 'x0'}, 'FOO;'.encode().hex()], '(and %s %s %s)' % (CLIFAIL, CLIKEPT, names), holes=[{'name': 'x0', 'alts': ['4e4f503b0a', '0a0a0a0a0a', '2020202020']}], maxe=16, **bud))
    return [(dict(cli=True), jobs)]


def by_words(a, b):
    """bytes that give the same result between the two texts"""
    out = {}
    for c in range(256):
        w = ref.assemble(a + chr(c) + b)
        out.setdefault('?' if w == ref.UNSPEC else None if w is None else tuple(w), []).append(c)
    return out
