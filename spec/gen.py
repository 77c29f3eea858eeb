"""Turns instruction forms into symbolic text templates with their expected meaning."""
import math, re, struct
from isa import *


def is_enum(slot, form):
    return enum_alts(slot, form) is not None


def split_slots(form):
    """flatten |a(x) into open / x / close"""
    out = []
    for s in form.slots:
        m = re.match(r'\|(\d+)\((.*)\)$', s)
        if m:
            out += ['abs(' + m.group(1), m.group(2), ')']
        else:
            out.append(s)
    return out


def enum_slots(form):
    """[(position, alternatives)] for slots with more than one alternative"""
    r = []
    for i, s in enumerate(split_slots(form)):
        a = enum_alts(s, form)
        if a and len(a) > 1:
            r.append((i, a))
        elif re.match(r'[-~]\d+$', s):
            r.append((i, [('', 0), (s[0], 1 << int(s[1:]))]))
        elif s.startswith('abs('):
            r.append((i, [('', 0), ('|', 1 << int(s[4:]))]))
    return r


class Cfg:
    """Which parts are symbolic. fixed: {position: alternative index}; regs: {position: mode};
    ints: how integer literals are written; reuse: allow a symbolic .reuse; mem: variant"""

    def __init__(self, **k):
        self.fixed = {}
        self.regs = {}
        self.reg_default = 'digits'
        self.pred_mode = 'sym'
        self.reuse = False
        self.mem = 'reg+off'
        self.ints = {}
        self.int_default = None
        self.flt = {}
        self.flt_default = 'float'
        self.space = ' '
        self.label = None
        self.pc = 8
        self.__dict__.update(k)


def int_digits(bits):
    return (bits + 3) // 4 + 1


def emit_int(t, cfg, pos, bits, lo, hi, signs=' -', align=1):
    kind = cfg.ints.get(pos, cfg.int_default)
    if kind == 'inside':
        # only values that are in range: a free low part under a fixed sign
        n = bits - 1 if lo < 0 else bits
        d = n // 4
        if '+' in signs:
            t.lit('+')
        if d == 0:
            t.lit('1' if hi >= 1 else '0')
            return bv(1 if hi >= 1 else 0)
        return t.hexint(d, '', last='0123456789abcdef'[::align] if align > 1 else None)
    if kind is not None and kind[0] == 'wide':
        # prefix and n more digits, more than 64 bits or at least far out of range
        h = t.set_hole(signs, 's')
        t.use(h)
        t.lit(kind[1])
        for _ in range(kind[2]):
            t.use(t.set_hole('0123456789abcdef' if kind[1].startswith('0x') else '0123456789'))
        t.valid.append('false')
        return bv(0)
    if kind is None:
        v = t.hexint(int_digits(bits), signs)
    elif kind == 'hex16':
        v = t.hexint(16, signs)
    elif kind[0] == 'lit':
        t.lit(kind[1])
        v = bv(kind[2])
    else:
        base, n, prefix = kind
        if base == 10:  # one sign at a time
            if prefix == '-' and '-' not in signs:
                t.valid.append('false')
            if prefix == ' ' and '+' in signs:
                prefix = '+'
            v = t.hexint(n, prefix, '', base)
        else:
            v = t.hexint(n, signs, prefix, base)
    t.in_range(v, lo, hi)
    return v


def put_reg(t, cfg, pos, addr, reuse_ok=True):
    v = t.reg(cfg.regs.get(pos, cfg.reg_default))
    t.word.append(shl(v, addr))
    t.env['reg%d' % addr] = v
    if cfg.reuse == 'any' and not (addr in (8, 20, 39) and reuse_ok):
        h = t.alts(['', '.reuse'], 'u')
        t.valid.append('(= %s #x00)' % h)
    if cfg.reuse and addr in (8, 20, 39) and reuse_ok:
        h = t.alts(['', '.reuse'], 'u')
        t.reuse.append('(ite (= %s #x01) %s %s)' % (h, bv({8: 1, 20: 2, 39: 4}[addr]), bv(0)))
    return v


def build(form, cfg, t):
    """append the instruction's text (without guard and semicolon) and its meaning to the template"""
    slots = split_slots(form)
    t.word.append(bv(form.opcode))
    t.lit(form.mn)
    first_operand = True
    sel = {}
    open_abs = []
    prev_neg = None
    po = None
    negs = []

    def space():
        t.lit(' ')

    for pos, s in enumerate(slots):
        alts = enum_alts(s, form)
        if s == ',':
            t.lit(',')
            space()
            continue
        if alts is not None:
            dotted = alts[-1][0].startswith('.') or alts[-1][0] == ''
            if not dotted or (pos and re.match(r'(i20|u20x|[us]\d+@\d+)$', slots[pos - 1])):
                space()  # a dot right after an integer would make it a floating literal
            if len(alts) == 1:
                t.lit(alts[0][0])
                t.word.append(bv(alts[0][1]))
                continue
            vals = [v for _, v in alts]
            names = [n for n, _ in alts]
            if pos in cfg.fixed:
                i = cfg.fixed[pos]
                t.lit(names[i])
                h, idx = None, i
                val = bv(vals[i])
            else:
                h = t.alts(names)
                val = sel_val(h, vals)
            is_ = (lambda h_, i_: (lambda k: ('true' if i_ == k else 'false') if h_ is None else '(= %s %s)' % (h_, bv(k, 8))))(h, None if h else i)
            sel[pos] = (s, names, is_)
            # two neighbouring optional slots with common spellings: the text fills the first one first
            if names[0] == '' and pos > 0 and pos - 1 in sel and sel[pos - 1][1][0] == '' and set(names[1:]) & set(sel[pos - 1][1][1:]):
                common = [k for k in range(1, len(names)) if names[k] in sel[pos - 1][1]]
                t.assume.append('(=> %s %s)' % (OR(*[is_(k) for k in common]), NOT(sel[pos - 1][2](0))))
            kind = s.split('@')[0]
            if s == 'f2fround':
                d, r = [p for p in sel if sel[p][0].startswith('t:ffmt')][:2]
                # formats by value: default is F32
                fv = lambda p, name: OR(*[sel[p][2](k) for k, n in enumerate(sel[p][1]) if (n or '.F32') == name])
                same = OR(*[AND(fv(d, x), fv(r, x)) for x in ('.F16', '.F32', '.F64')])
                t.valid.append('(=> %s %s)' % (OR(*[is_(k) for k in range(1, 6)]), same))
                t.valid.append('(=> %s %s)' % (OR(*[is_(k) for k in range(6, 10)]), NOT(same)))
            elif s == 'bsel':
                # halfword selectors go with 16-bit sources, byte selectors with the others
                src = [p for p in sel if sel[p][0].startswith('i2fint') or sel[p][0].startswith('i2ifmt@10')][0]
                is16 = OR(*[sel[src][2](k) for k, n in enumerate(sel[src][1]) if n.endswith('16')])
                t.valid.append('(=> %s %s)' % (OR(*[is_(k) for k in range(1, 5)]), NOT(is16)))
                t.valid.append('(=> %s %s)' % (OR(is_(5), is_(6)), is16))
            elif s.startswith('vsel@'):
                # bytes of 8-bit sources, halves of 16-bit sources; a 32-bit source has nothing to select
                ty = s.split('/')[1]
                src = [p for p in sel if sel[p][0].startswith('vfmt@%s-' % ty)][0]
                is16 = OR(*[sel[src][2](k) for k, n in enumerate(sel[src][1]) if n.endswith('16')])
                is8 = OR(*[sel[src][2](k) for k, n in enumerate(sel[src][1]) if n.endswith('8')])
                t.valid.append('(=> %s %s)' % (OR(*[is_(k) for k in range(1, 5)]), is8))
                t.valid.append('(=> %s %s)' % (OR(is_(5), is_(6)), is16))
            elif s == 'texsmode':
                t.env['texsmode'] = pos
            elif s == 'texstype':
                mp = t.env['texsmode']
                e, ok = bv(0), []
                for mi, mname in enumerate(sel[mp][1]):
                    for ti, tname in enumerate(names):
                        if (mname, tname) in TEXS:
                            c = AND(sel[mp][2](mi), is_(ti))
                            ok.append(c)
                            e = '(ite %s %s %s)' % (c, bv(TEXS[mname, tname]), e)
                t.valid.append(OR(*ok))
                val = e
            elif s == 'tldstype':
                g = {n: p for p in sel for n in ('t:tldlod', '.AOFFI', '.MS') if sel[p][0].startswith(n)}
                e, ok = bv(0), []
                for (ll, ao, ms, ty), v in TLDS.items():
                    if ll and ty in ('3D', 'ARRAY_2D'):
                        continue  # no such encoding
                    c = AND(sel[g['t:tldlod']][2](ll), sel[g['.AOFFI']][2](ao), sel[g['.MS']][2](ms), is_(names.index(ty)))
                    ok.append(c)
                    e = '(ite %s %s %s)' % (c, bv(v), e)
                t.valid.append(OR(*ok))
                val = e
            elif s == 'texsswz':
                rz = '(= %s %s)' % (t.env['reg28'], bv(255))
                e, ok = bv(0), []
                for k, n in enumerate(names):
                    if n in SWZ_RZ:
                        ok.append(AND(is_(k), rz)); v = SWZ_RZ[n]
                    else:
                        ok.append(AND(is_(k), NOT(rz))); v = SWZ[n]
                    e = '(ite %s %s %s)' % (is_(k), bv(v << 50), e)
                t.valid.append(OR(*ok))
                val = e
            if form.mn == 'TLDS' and (s.startswith('t:tldlod') or s.startswith('.AOFFI') or s.startswith('.MS')):
                val = bv(0)  # folded into the type code
            if s.startswith('.PO@'):
                po = is_(1)
            if s.startswith('.NEG@'):
                negs.append((int(s[5:]), is_(1)))
            t.word.append(val)
            continue
        m = re.match(r'([-~])(\d+)$', s)
        if m:
            nxt = slots[pos + 1]
            sep = ' ' if nxt in ('i20',) else ''
            bit = 1 << int(m.group(2))
            if pos in cfg.fixed:
                i = cfg.fixed[pos]
                t.lit(m.group(1) + sep if i else '')
                t.word.append(bv(bit if i else 0))
                c = 'true' if i else 'false'
            else:
                h = t.alts(['', m.group(1) + sep], 'n')
                t.word.append('(ite (= %s #x01) %s %s)' % (h, bv(bit), bv(0)))
                c = '(= %s #x01)' % h
            if m.group(1) == '-':
                negs.append((int(m.group(2)), c))
            continue
        if s.startswith('abs('):
            bit = 1 << int(s[4:])
            if pos in cfg.fixed:
                i = cfg.fixed[pos]
                open_abs.append(('lit', '|' if i else ''))
                t.lit('|' if i else '')
                t.word.append(bv(bit if i else 0))
            else:
                h = t.set_hole(' |', 'b')
                t.use(h)
                open_abs.append(('hole', h))
                t.word.append('(ite (= %s %s) %s %s)' % (h, bv(124, 8), bv(bit), bv(0)))
            continue
        if s == ')':
            k, h = open_abs.pop()
            t.lit(h) if k == 'lit' else t.use(h)
            continue
        if not (pos and (slots[pos - 1].startswith('abs(') or re.match(r'[-~]\d', slots[pos - 1]))):
            if pos == 0 or slots[pos - 1] != ',':
                space()
        m = re.match(r'([DS])(\d+)$', s)
        if m:
            put_reg(t, cfg, pos, int(m.group(2)))
            continue
        m = re.match(r'M(\d+)$', s)
        if m:
            # must repeat the destination
            v = t.reg(cfg.regs.get(pos, cfg.reg_default))
            t.valid.append('(= %s %s)' % (v, t.env['reg' + m.group(1)]))
            continue
        m = re.match(r'P(inv)?(\d+)(!)?$', s)
        if m:
            a = int(m.group(2))
            neg = bool(m.group(3))
            names = ['P%d' % i for i in range(7)] + ['PT']
            if cfg.pred_mode == 'sym':
                h = t.alts(names + ['!' + n for n in names], 'p')
                idx = '(bvand %s %s)' % (zext8(h), bv(7))
                ng = '(bvlshr (bvand %s %s) %s)' % (zext8(h), bv(8), bv(3))
                t.word.append(shl('(bvsub %s %s)' % (bv(7), idx) if m.group(1) else idx, a))
                if neg:
                    t.word.append(shl(ng, a + 3))
                else:
                    t.valid.append('(= %s %s)' % (ng, bv(0)))
            else:  # few values, to keep products small
                t.lit('P%d' % (pos % 7))
                k = pos % 7
                t.word.append(bv((7 - k if m.group(1) else k) << a))
            continue
        if s == 'cb':
            t.lit('c[')
            v = emit_int(t, cfg, (pos, 0), 5, 0, 31, cfg.ints.get('cbsign', '') or '')
            t.field(v, 5, 34)
            t.lit('][')
            v = emit_int(t, cfg, (pos, 1), 16, -32768, 32767, align=4)
            t.valid.append('(= (bvand %s %s) %s)' % (v, bv(3), bv(0)))
            t.word.append('(bvshl (bvand (bvlshr %s %s) %s) %s)' % (v, bv(2), bv((1 << 14) - 1), bv(20)))
            t.lit(']')
            continue
        if s == 'i20':
            v = emit_int(t, cfg, pos, 20, -(1 << 19), (1 << 19) - 1)
            t.field(v, 19, 20)
            t.word.append('(ite (bvslt %s %s) %s %s)' % (v, bv(0), bv(1 << 56), bv(0)))
            continue
        if s == 'u20x':
            v = emit_int(t, cfg, pos, 20, 0, (1 << 20) - 1)
            t.field(v, 19, 20)
            t.word.append('(bvshl (bvand (bvlshr %s %s) %s) %s)' % (v, bv(19), bv(1), bv(56)))
            continue
        m = re.match(r'([us])(\d+)@(\d+)$', s)
        if m:
            n, a = int(m.group(2)), int(m.group(3))
            lo, hi = (0, (1 << n) - 1) if m.group(1) == 'u' else (-(1 << (n - 1)), (1 << (n - 1)) - 1)
            v = emit_int(t, cfg, pos, n, lo, hi)
            t.field(v, n, a)
            continue
        if s in ('f20', 'f32', 'd20') or re.match(r'h(9|16)@', s):
            put_float(t, cfg, pos, s)
            continue
        m = re.match(r'mem:(\w+)(?::(\d+):(\d+))?$', s)
        if m:
            put_mem(t, cfg, pos, None if m.group(1) == 'none' else (int(m.group(1)), int(m.group(2)), int(m.group(3))))
            continue
        if s == 'ldcaddr':
            t.lit('c[')
            v = emit_int(t, cfg, (pos, 0), 5, 0, 31, '')
            t.field(v, 5, 36)
            t.lit(']')
            put_mem(t, cfg, pos, (20, 16, 0))
            continue
        if s == 'a:imm':
            t.lit('a[')
            v = emit_int(t, cfg, pos, 10, 0, 1023)
            t.field(v, 10, 20)
            t.word.append(bv(0xFF00))
            t.lit(']')
            continue
        if s == 'a:patch':
            t.lit('a[')
            put_reg(t, cfg, pos, 8)
            t.lit('+ ')
            v = emit_int(t, cfg, (pos, 1), 11, -1024, 1023)
            t.field(v, 11, 20)
            t.lit(']')
            continue
        if s == 'a:phys':
            t.lit('a[')
            put_reg(t, cfg, pos, 8)
            t.lit(']')
            continue
        if s == 'label' and cfg.label:
            # the target is written by the caller, who knows its address
            v = cfg.label(t)
            t.field('(bvsub %s %s)' % (v, bv(cfg.pc + 8)), 24, 20)
            continue
        if s == 'label':
            # absolute address of the target; this instruction is the first of the program
            v = emit_int(t, cfg, pos, 24, -(1 << 40), 1 << 40)
            off = '(bvsub %s %s)' % (v, bv(cfg.pc + 8))
            t.in_range(off, -(1 << 23), (1 << 23) - 1)
            t.field(off, 24, 20)
            continue
        raise ValueError('slot %s of %s' % (s, form))
    if po is not None:
        bits = [int(x) for x in re.search(r'\.PO@(\d+)\+(\d+)', ' '.join(slots)).groups()]
        # .PO is encoded as both negations: it excludes each of them, and both together mean it
        cs = [c for b, c in negs if b in bits]
        for c in cs:
            t.valid.append(NOT(AND(po, c)))
        if len(cs) == 2:
            t.valid.append(NOT(AND(*cs)))
    return t


def put_mem(t, cfg, pos, off):
    t.lit('[')
    mode = cfg.mem
    if off is None and mode in ('reg+off', 'RZ+off'):
        mode = 'reg' if mode == 'reg+off' else 'RZ'
    if off is None and mode == 'off':
        mode = 'none'
    rz = mode in ('off', 'none', 'RZ', 'RZ+off')
    if mode in ('reg+off', 'reg'):
        put_reg(t, cfg, pos, 8)
    else:
        if mode in ('RZ', 'RZ+off'):
            t.lit('RZ')
        t.word.append(bv(0xFF00))
    if mode in ('reg+off', 'RZ+off', 'off'):
        at, n, sh = off
        lo, hi = (0, (1 << n) - 1) if rz else (-(1 << (n - 1)), (1 << (n - 1)) - 1)
        v = emit_int(t, cfg, (pos, 1), n, lo, hi, '+-', 1 << sh)
        if sh:
            t.valid.append('(= (bvand %s %s) %s)' % (v, bv((1 << sh) - 1), bv(0)))
        t.word.append('(bvshl (bvand (bvlshr %s %s) %s) %s)' % (v, bv(sh), bv((1 << n) - 1), bv(at)))
    t.lit(']')


FLOATS = ['1.5', '-2.75', '0.0', '-0.0', '65504.0', '-0.000061', '0.1', '-3.0']


def float_word(s, x):
    """contribution of the floating operand x (a number) to the word; s is the slot"""
    sign = 1 if math.copysign(1, x) < 0 else 0
    if s in ('f20', 'f32'):
        raw = struct.unpack('<I', struct.pack('<f', x))[0]
        return raw << 20 if s == 'f32' else ((raw >> 12) & 0x7ffff) << 20 | sign << 56
    x = struct.unpack('<f', struct.pack('<f', x))[0]
    if s == 'd20':
        raw = struct.unpack('<Q', struct.pack('<d', x))[0]
        return ((raw >> 44) & 0x7ffff) << 20 | sign << 56
    m = re.match(r'h(9|16)@(\d+)(?:-(\d+))?$', s)
    raw = struct.unpack('<H', struct.pack('<e', x))[0] & 0x7fff
    if m.group(1) == '9':
        return (raw >> 6) << int(m.group(2)) | sign << int(m.group(3))
    return (raw | sign << 15) << int(m.group(2))


def put_float(t, cfg, pos, s):
    kind = cfg.flt.get(pos, cfg.flt_default)
    if kind == 'one':
        x = FLOATS[pos % 2]
        t.lit(x)
        t.word.append(bv(float_word(s, float(x))))
        return
    if kind == 'alts':
        texts = [FLOATS[(i + pos) % len(FLOATS)] for i in range(len(FLOATS))]
        h = t.alts(texts, 'q')
        t.word.append(sel_val(h, [float_word(s, float(x)) for x in texts]))
        return
    if kind == 'float':
        f = t.flt()
        raw = f
        fp = '((_ to_fp 8 24) %s)' % f
        sign = '(= ((_ extract 31 31) %s) #b1)' % f
    elif kind == 'named':
        names = ['QNAN', 'INF', '+QNAN', '+INF', '-QNAN', '-INF']
        h = t.alts(names, 'q')
        nan = sel_in(h, [0, 2, 4])
        sign = sel_in(h, [4, 5])
    else:
        # integer literal: reads as a single; must be exact
        lo, hi = -(1 << 63), (1 << 63) - 1
        v = emit_int(t, cfg, pos, 28, lo, hi)
        raw = t.fresh('fi')
        t.defs.append('(declare-const %s (_ BitVec 32))' % raw)
        fp = '((_ to_fp 8 24) RNE %s)' % v
        t.defs.append(('assert', '(= ((_ to_fp 8 24) %s) %s)' % (raw, fp)))
        fp = '((_ to_fp 8 24) %s)' % raw
        sign = '(bvslt %s %s)' % (v, bv(0))
        if s in ('f20', 'f32'):
            # exact: the magnitude has at most 24 significant bits
            mag = t.define('(ite (bvslt %s %s) (bvneg %s) %s)' % (v, bv(0), v, v), 64, 'im')
            t.valid.append(OR(*['(and (= (bvand %s %s) %s) (bvult %s %s))' % (mag, bv((1 << k) - 1), bv(0), mag, bv(1 << (24 + k))) if k + 24 < 64 else
                                '(= (bvand %s %s) %s)' % (mag, bv((1 << k) - 1), bv(0)) for k in range(0, 41)]))
    if s in ('f20', 'f32'):
        if kind == 'named':
            raw = '(ite %s (ite %s #xffc00000 #x7fc00000) (ite %s #xff800000 #x7f800000))' % (nan, sign, sign)
        r64 = '((_ zero_extend 32) %s)' % raw
        if s == 'f20':
            t.word.append('(bvshl (bvand (bvlshr %s %s) %s) %s)' % (r64, bv(12), bv((1 << 19) - 1), bv(20)))
            t.word.append('(ite %s %s %s)' % (sign, bv(1 << 56), bv(0)))
        else:
            t.word.append(shl(r64, 20))
        return
    if s == 'd20':
        if kind == 'named':
            d = '(ite %s #x7ff8000000000000 #x7ff0000000000000)' % nan
        else:
            d = t.fresh('dd')
            t.defs.append('(declare-const %s (_ BitVec 64))' % d)
            t.defs.append(('assert', '(= ((_ to_fp 11 53) %s) %s)' % (d, '((_ to_fp 11 53) RNE %s)' % (v if kind == 'int' else fp))))
        t.word.append('(bvshl (bvand (bvlshr %s %s) %s) %s)' % (d, bv(44), bv((1 << 19) - 1), bv(20)))
        t.word.append('(ite %s %s %s)' % (sign, bv(1 << 56), bv(0)))
        return
    m = re.match(r'h(9|16)@(\d+)(?:-(\d+))?$', s)
    if kind == 'named':
        h16 = '(ite %s #x7fff #x7c00)' % nan
    else:
        h16 = t.fresh('hh')
        t.defs.append('(declare-const %s (_ BitVec 16))' % h16)
        t.defs.append(('assert', '(= ((_ to_fp 5 11) %s) ((_ to_fp 5 11) RNE %s))' % (h16, fp)))
    h64 = '(bvand ((_ zero_extend 48) %s) %s)' % (h16, bv(0x7fff))
    if m.group(1) == '9':
        t.word.append('(bvshl (bvlshr %s %s) %s)' % (h64, bv(6), bv(int(m.group(2)))))
        t.word.append('(ite %s %s %s)' % (sign, bv(1 << int(m.group(3))), bv(0)))
    else:
        t.word.append(shl(h64, int(m.group(2))))
        t.word.append('(ite %s %s %s)' % (sign, bv(0x8000 << int(m.group(2))), bv(0)))


def job_single(form, cfg, jid, guard='', sched=None, **opts):
    """job: one instruction program, expected word and scheduling word, or rejection"""
    t = Template()
    if guard:
        t.lit(guard[0])
    t.word.append(bv((guard[1] if guard else 7) << 16))
    build(form, cfg, t)
    t.lit(';')
    return finish(t, jid, **opts)


NOPWORD = 0x50B0000000070F00
DEFSCHED = 0x7E0 | 0x7E0 << 21 | 0x7E0 << 42


def reject(r=0):
    return '(and ex{0} msg{0} (not (= code{0} #x00000000)))'.format(r)


def finish(t, jid, **opts):
    exp = t.expected()
    valid = AND(*t.valid) if t.valid else 'true'
    sched = '(bvor %s (bvshl %s %s))' % (bv(DEFSCHED), t.reuse_expr(), bv(17))
    good = '(and ok0 (= n0 #x00000004) (= w0_1 %s) (= w0_0 %s) (= w0_2 %s) (= w0_3 %s))' % (exp, sched, bv(NOPWORD), bv(NOPWORD))
    prop = '(ite %s %s %s)' % (valid, good, reject())
    if t.assume:
        prop = '(=> %s %s)' % (AND(*t.assume), prop)
    j = dict(id=jid, holes=t.holes, runs=[t.pieces], prop=t.wrap(prop), defs=t.def_text(), floats=t.floats, maxw=4)
    j.update(opts)
    return j


# ------------------------------------------------------------------ programs
def address(k):
    """byte address of instruction k: every third one is preceded by a scheduling word"""
    return 8 * (k + k // 3 + 1)


class Program:
    """several instructions in one text"""

    def __init__(self, t=None):
        self.t = t or Template()
        self.words, self.slots = [], []

    def lit(self, s):
        self.t.lit(s)

    def insn(self, form, cfg, guard=None, sched=None, end=';\n'):
        """guard: None or f(t) -> bits at 16; sched: None or f(t) -> 17-bit slot"""
        t = self.t
        t.word, t.reuse = [], []
        g = guard(t) if guard else bv(7 << 16)
        cfg.pc = address(len(self.words))
        build(form, cfg, t)
        t.word.append(g)
        w = t.define(t.expected(), 64, 'iw')
        r = t.define(t.reuse_expr(), 64, 'ru') if t.reuse else bv(0)
        s = bv(0x7E0)
        if sched:
            t.lit(' ')
            s = t.define(sched(t), 64, 'sc')
        t.lit(end)
        self.words.append(w)
        self.slots.append('(bvor %s (bvshl %s %s))' % (s, r, bv(17)) if r != bv(0) else s)

    def raw(self, text, word):
        self.t.lit(text)
        self.words.append(bv(word))
        self.slots.append(bv(0x7E0))

    def layout(self):
        """expected words of the code"""
        out = []
        n = len(self.words)
        for i in range(0, n, 3):
            sl = [self.slots[k] if k < n else bv(0x7E0) for k in range(i, i + 3)]
            out.append('(bvor %s (bvor (bvshl %s %s) (bvshl %s %s)))' % (sl[0], sl[1], bv(21), sl[2], bv(42)))
            out += self.words[i:i + 3]
        while len(out) % 4:
            out.append(bv(NOPWORD))
        return out

    def good(self, r=0, lead=(), tail=0):
        ws = list(lead) + self.layout() + [bv(0)] * tail
        return AND('ok%d' % r, '(= n%d %s)' % (r, bv(len(ws), 32)), *['(= w%d_%d %s)' % (r, k, w) for k, w in enumerate(ws)]), len(ws)

    def job(self, jid, **opts):
        t = self.t
        good, n = self.good(0, opts.pop('lead', ()), opts.pop('tail', 0))
        valid = AND(*t.valid) if t.valid else 'true'
        prop = '(ite %s %s %s)' % (valid, good, reject()) if valid != 'true' else good
        if t.assume:
            prop = '(=> %s %s)' % (AND(*t.assume), prop)
        j = dict(id=jid, holes=t.holes, runs=[t.pieces], prop=t.wrap(prop), defs=t.def_text(), floats=t.floats, maxw=n)
        j.update(opts)
        return j
