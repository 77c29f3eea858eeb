"""Independent statement of the instruction set: how the text of one instruction maps to its 64-bit word.

Nothing here is read from /repo: isa_forms.txt and the tables below are the specification.  A Form is turned
into a symbolic text template (holes) and an SMT-LIB expression for the expected word and for validity."""
import os, re

HERE = os.path.dirname(os.path.abspath(__file__))

CC_TESTS = ("F LT EQ LE GT NE GE NUM NAN LTU EQU LEU GTU NEU GEU T OFF LO SFF LS HI SFT HS OFT CSM_TA CSM_TR "
            "CSM_MX FCSM_TA FCSM_TR FCSM_MX RLE RGT").split()
# name -> (default when absent, or None if mandatory, names by value; None = no such spelling)
TABLES = {
    'half': (0, ['H0', 'H1']),
    'ffmt': (2, [None, 'F16', 'F32', 'F64']),
    'bytesel': (0, ['B0', 'B1', 'B2', 'B3']),
    'rnd': (0, ['RN', 'RM', 'RP', 'RZ']),
    'bop': (None, ['AND', 'OR', 'XOR', 'INVALIDBOP3']),
    'memsize': (4, ['U8', 'S8', 'U16', 'S16', '32', '64', '128']),
    'stcache': (0, [None, 'CG', 'CS', 'WT']),
    'ldcache': (0, [None, 'CG', 'CI', 'CV']),
    'ldlcache': (0, [None, 'LU', 'CI', 'CV']),
    'rro': (None, ['SINCOS', 'EX2']),
    'lop': (None, ['AND', 'OR', 'XOR', 'PASS_B']),
    'popz': (0, [None, 'T', 'Z', 'NZ']),
    'attrsize': (0, ['32', '64', '96', '128']),
    'cctest': (15, CC_TESTS),
    'xmada': (0, [None, 'CLO', 'CHI', 'CSFU', 'CBCC']),
    'xmadb': (0, [None, 'CLO', 'CHI', 'CSFU']),
    'u32s32': (1, ['U32', 'S32']),
    'isign': (1, ['U32', 'S32']),
    'cw': (0, ['C', 'W']),
    'shrx': (0, [None, 'INVALIDSHRXMODE1', 'X', 'XHI']),
    'bpt': (None, ['DRAIN_ILLEGAL', 'CAL', 'PAUSE', 'TRAP', 'INT', 'DRAIN']),
    'fmz': (0, [None, 'FTZ', 'FMZ', 'INVALIDFMZ3']),
    'fscale': (0, [None, 'D2', 'D4', 'D8', 'M8', 'M4', 'M2', 'INVALIDSCALE37']),
    'iadd3sh': (0, [None, 'RS', 'LS']),
    'i3half': (0, [None, 'H0', 'H1']),
    'f2iround': (0, [None, 'FLOOR', 'CEIL', 'TRUNC']),
    'hmerge': (0, [None, 'F32', 'MRG_H0', 'MRG_H1']),
    'hctl': (0, [None, 'FTZ', 'FMZ']),
    'hswz': (0, ['H1_H0', 'F32', 'H0_H0', 'H1_H1']),
    'fcmp': (None, CC_TESTS[:16]),
    'icmp': (None, ['F', 'LT', 'EQ', 'LE', 'GT', 'NE', 'GE', 'T']),
    'vicmp': (None, ['F', 'LT', 'EQ', 'LE'] + [None] * 12 + ['GT', 'NE', 'GE', 'T']),
    'mufu': (None, ['COS', 'SIN', 'EX2', 'LG2', 'RCP', 'RSQ', 'RCP64H', 'RSQ64H', 'SQRT']),
    'imnmx': (0, [None, 'XLO', 'XMED', 'XHI']),
    'ldcmode': (0, [None, 'IL', 'IS', 'ISL']),
    'ldcsize': (None, ['U8', 'S8', 'U16', 'S16', '32', '64']),
    'imgtype': (None, ['1D', '1D_BUFFER', '1D_ARRAY', '2D', '2D_ARRAY', '3D']),
    'rgba': (15, [None, 'R', 'G', 'RG', 'B', 'RB', 'GB', 'RGB', 'A', 'RA', 'GA', 'RGA', 'BA', 'RBA', 'GBA', 'RGBA']),
    'imgsize': (4, ['U8', 'S8', 'U16', 'S16', '32', '64', '128']),
    'imgclamp': (1, ['IGN', None, 'TRAP']),
    'shfl': (None, ['IDX', 'UP', 'DOWN', 'BFLY']),
    'atomsop': (None, ['ADD', 'MIN', 'MAX', 'INC', 'DEC', 'AND', 'OR', 'XOR', 'EXCH']),
    'atomssize': (None, ['U32', 'S32', 'U64', 'S64']),
    'vote': (None, ['ALL', 'ANY', 'EQ']),
    'atomop': (None, ['ADD', 'MIN', 'MAX', 'INC', 'DEC', 'AND', 'OR', 'XOR', 'EXCH', 'SAFEADD']),
    'shfmax': (0, ['32', 'INVALIDMAXSHIFT3', 'U64', 'S64']),
    'shfx': (0, [None, 'HI', 'X', 'XHI']),
    'noinc': (1, ['NOINC', 'INC']),
    'vdsign': (1, ['UD', 'SD']),
    'mx': (0, ['MN', 'MX']),
    'vop': (7, ['MRG_16H', 'MRG_16L', 'MRG_8B0', 'MRG_8B2', 'ACC', 'MIN', 'MAX']),
    'vmadscale': (0, [None, 'SHR_7', 'SHR_15', 'INVALIDVMADSCALE3']),
    'redop': (0, ['ADD', 'MIN', 'MAX', 'INC', 'DEC', 'AND', 'OR', 'XOR']),
    'blod': (0, [None, 'LZ', 'LB', 'LL', 'INVALIDBLOD4', 'INVALIDBLOD5', 'LBA', 'LLA']),
    'ssize': (1, ['F16', None]),
    'ssizei': (0, [None, 'F16']),
    'rgbac': (None, ['R', 'G', 'B', 'A']),
    't4off': (0, [None, 'AOFFI', 'PTP']),
    'tldlod': (None, ['LZ', 'LL']),
}
TEX_TYPES = ['1D', 'ARRAY_1D', '2D', 'ARRAY_2D', '3D', 'ARRAY_3D', 'CUBE', 'ARRAY_CUBE']
TXQ_MODES = {1: 'TEX_HEADER_DIMENSION', 2: 'TEX_HEADER_TEXTURE_TYPE', 5: 'TEX_HEADER_SAMPLER_POS'}
SYSREGS = [l.split() for l in open(os.path.join(HERE, 'sysregs.txt'))]


# ------------------------------------------------------------------ SMT helpers
def bv(v, w=64):
    return '(_ bv%d %d)' % (v & ((1 << w) - 1), w)


def shl(e, n):
    return e if n == 0 else '(bvshl %s %s)' % (e, bv(n))


def zext8(v):
    return '((_ zero_extend 56) %s)' % v


def AND(*a):
    a = [x for x in a if x != 'true']
    return 'true' if not a else a[0] if len(a) == 1 else '(and %s)' % ' '.join(a)


def OR(*a):
    return 'false' if not a else a[0] if len(a) == 1 else '(or %s)' % ' '.join(a)


def NOT(a):
    return '(not %s)' % a


def hexlit(s):
    if isinstance(s, str):
        s = s.encode('latin1')
    return s.hex()


class Template:
    """One text (a list of literal and hole pieces) with its expected meaning."""

    def __init__(self, prefix=''):
        self.pre = prefix          # hole-name prefix
        self.holes, self.pieces = [], []
        self.word = []             # 64-bit contributions
        self.valid = []            # conditions under which the text must assemble
        self.assume = []           # conditions on the template (other texts mean something else)
        self.reuse = []            # 64-bit contributions to the reuse flags
        self.defs = []             # declarations and ('assert', formula)
        self.lets = []             # named subexpressions
        self.floats = []
        self.env = {}
        self.nh = 0
        self.lead = 0              # words in front of this instruction

    def fresh(self, base):
        self.nh += 1
        return '%s%s%d' % (self.pre, base, self.nh)

    def lit(self, s):
        self.pieces.append(hexlit(s))

    def set_hole(self, chars, base='c'):
        n = self.fresh(base)
        self.holes.append({'name': n, 'set': hexlit(chars)})
        return n

    def use(self, n):
        self.pieces.append({'h': n})

    def alts(self, texts, base='m'):
        """a hole that is one of the given texts; returns the selector variable"""
        n = self.fresh(base)
        self.holes.append({'name': n, 'alts': [hexlit(t) for t in texts]})
        self.pieces.append({'h': n})
        return n

    def declare(self, texts, base='m'):
        """like alts, but put in the text later with use(); the texts are equally long"""
        n = self.fresh(base)
        self.holes.append({'name': n, 'alts': [hexlit(t) for t in texts]})
        return n

    # ---- basic operands
    def digits(self, n, chars='0123456789'):
        """n digits; each variable is the digit's position in `chars`"""
        return [self.alts(list(chars), 'd') for _ in range(n)]

    def reg(self, mode='digits'):
        """register text; returns 64-bit value expression"""
        if mode == 'digits':
            self.lit('R')
            a, b, c = self.digits(1, '012') + self.digits(2)
            v = self.define('(bvadd (bvmul %s %s) (bvadd (bvmul %s %s) %s))' % (zext8(a), bv(100), zext8(b), bv(10), zext8(c)), 64, 'rg')
            self.valid.append('(bvule %s %s)' % (v, bv(254)))
            return v
        if isinstance(mode, tuple) and mode[0] == 'prefix':  # far out of range
            self.lit('R' + mode[1])
            self.digits(mode[2])
            self.valid.append('false')
            return bv(0)
        if isinstance(mode, tuple):  # any n digits
            n = mode[1]
            self.lit('R')
            ds = self.digits(n)
            if n > 3:  # a value that fits has zeros in front
                self.valid.append(AND(*['(= %s #x00)' % d for d in ds[:-3]]))
            e = zext8(ds[max(0, n - 3)])
            for d in ds[max(0, n - 3) + 1:]:
                e = '(bvadd %s (bvmul %s %s))' % (zext8(d), e, bv(10))
            v = self.define(e, 64, 'rg')
            self.valid.append('(bvule %s %s)' % (v, bv(254)))
            return v
        if mode == 'two':  # R10 to R99
            self.lit('R')
            a = self.alts(list('123456789'), 'd')
            b, = self.digits(1)
            return self.define('(bvadd (bvmul (bvadd %s %s) %s) %s)' % (zext8(a), bv(1), bv(10), zext8(b)), 64, 'rg')
        if mode == 'low':  # R000 to R199: always valid
            self.lit('R')
            a, b, c = self.digits(1, '01') + self.digits(2)
            return self.define('(bvadd (bvmul %s %s) (bvadd (bvmul %s %s) %s))' % (zext8(a), bv(100), zext8(b), bv(10), zext8(c)), 64, 'rg')
        if mode == 'all':
            n = self.alts(['R%d' % i for i in range(255)] + ['RZ'], 'r')
            return zext8(n)
        self.lit('RZ' if mode == 255 else 'R%d' % mode)
        return bv(mode)

    def define(self, e, w, base='x'):
        n = self.fresh(base)
        self.lets.append((n, e))
        return n

    def hexint(self, n, signs=' -', prefix='0x', base=16, last=None):
        """signed integer literal with n digits; returns 64-bit two's complement value"""
        neg = 'false'
        if len(signs) > 1:
            s = self.set_hole(signs, 's'); self.use(s)
            neg = '(= %s %s)' % (s, bv(45, 8))
        elif signs:
            self.lit(signs)
            neg = 'true' if signs == '-' else 'false'
        self.lit(prefix)
        dv = lambda x: x
        if base == 16:
            ds = self.digits(n - 1 if last else n, '0123456789abcdef')
            if last:  # the last digit is one of these
                h = self.alts(list(last), 'd')
                ds.append('(bvmul %s %s)' % (h, bv(16 // len(last), 8)))
        elif base == 'X':  # capital letters
            ds = self.digits(n, '0123456789ABCDEF')
            base = 16
        elif base == 10:  # no leading zero
            ds = [self.alts(list('123456789'), 'd')] + self.digits(n - 1)
            dv = lambda x: '(bvadd %s #x01)' % x if x == ds[0] else x
        elif base == 8:
            ds = self.digits(n, '01234567')
        else:
            ds = self.digits(n, '01')
        if base == 16 and n <= 16:
            body = '(concat %s)' % ' '.join('((_ extract 3 0) %s)' % dv(x) for x in ds) if n > 1 else '((_ extract 3 0) %s)' % dv(ds[0])
            e = body if n == 16 else '((_ zero_extend %d) %s)' % (64 - 4 * n, body)
        else:
            # written the way a scanner computes it, which helps the solver
            e = zext8(dv(ds[0]))
            for x in ds[1:]:
                e = '(bvadd %s (bvmul %s %s))' % (zext8(dv(x)), e, bv(base))
        mag = self.define(e, 64, 'mag')
        if base == 16 and n == 16:
            # a literal that does not fit in 64 bits is not representable
            self.valid.append('(ite %s (bvule %s #x8000000000000000) (bvule %s #x7fffffffffffffff))' % (neg, mag, mag))
        return self.define('(ite %s (bvneg %s) %s)' % (neg, mag, mag), 64, 'val')

    def in_range(self, v, lo, hi):
        self.valid.append('(and (bvsle %s %s) (bvsle %s %s))' % (bv(lo), v, v, bv(hi)))

    def field(self, v, bits, at):
        m = '(bvand %s %s)' % (v, bv((1 << bits) - 1))
        self.word.append(shl(m, at))

    def flt(self):
        """floating literal: the value is an arbitrary non-NaN single, with the sign of the text"""
        s = self.set_hole(' -', 's'); self.use(s)
        self.lit('1')
        h = self.set_hole('0123456789', 'fl'); self.use(h)
        self.lit('.5')
        self.floats.append(h)
        v = self.fresh('fx')
        self.lets.append((v, '(concat (ite (= %s %s) #b1 #b0) ((_ extract 30 0) fv_%s))' % (s, bv(45, 8), h)))
        return v

    # ---- result
    def wrap(self, e):
        """e with the named subexpressions it may use"""
        for n, d in reversed(self.lets):
            e = '(let ((%s %s)) %s)' % (n, d, e)
        return e

    def def_text(self):
        return '\n'.join(d if isinstance(d, str) else '(assert %s)' % self.wrap(d[1]) for d in self.defs)

    def expected(self):
        e = self.word[0]
        for w in self.word[1:]:
            e = '(bvor %s %s)' % (e, w)
        return e

    def reuse_expr(self):
        e = bv(0)
        for w in self.reuse:
            e = '(bvor %s %s)' % (e, w)
        return e


class Slot:
    """parsed slot of a form"""

    def __init__(self, txt):
        self.txt = txt
        self.alts = None   # list of (text, value or (valid_fn, value_fn)) for enumerable slots
        self.optional = False

    def __repr__(self):
        return self.txt


class Form:
    def __init__(self, idx, line):
        p = line.split()
        self.idx = idx
        self.opcode = int(p[0], 16)
        self.np = p[1] == 'np'
        self.mn = p[2]
        self.slots = p[3:]
        self.id = '%03d_%s' % (idx, self.mn)

    def __repr__(self):
        return '%s %s' % (self.id, ' '.join(self.slots))


def load_forms():
    out = []
    for l in open(os.path.join(HERE, 'isa_forms.txt')):
        if l.strip() and not l.startswith('#'):
            out.append(Form(len(out), l))
    return out


def sel_val(sel, vals):
    """64-bit value chosen by an 8-bit selector"""
    if all(v == i for i, v in enumerate(vals)):
        return zext8(sel)
    e = bv(vals[-1])
    for i in range(len(vals) - 2, -1, -1):
        e = '(ite (= %s %s) %s %s)' % (sel, bv(i, 8), bv(vals[i]), e)
    return e


def sel_in(sel, idx):
    return OR(*['(= %s %s)' % (sel, bv(i, 8)) for i in idx])


def enum_alts(slot, form):
    """(alternatives as texts, values) for slots that are one of a fixed list; None for the others.
    Values: int, the whole contribution to the word (already shifted)."""
    m = re.match(r't:(\w+)@(\d+)$', slot)
    if m:
        d, names = TABLES[m.group(1)]
        a = int(m.group(2))
        al = [('.' + n, v << a) for v, n in enumerate(names) if n]
        return ([('', d << a)] if d is not None else []) + al
    m = re.match(r'\.(\w+)(?:@(\d+)(?:\+(\d+))?)?$', slot)
    if m:
        v = (1 << int(m.group(2))) if m.group(2) else 0
        if m.group(3):
            v |= 1 << int(m.group(3))
        return [('', 0), ('.' + m.group(1), v)]
    m = re.match(r'!\.(\w+)(?:@(\d+)|\|(0x[0-9A-F]+))?$', slot)
    if m:
        return [('.' + m.group(1), 1 << int(m.group(2)) if m.group(2) else int(m.group(3), 16) if m.group(3) else 0)]
    m = re.match(r'=(0x[0-9A-F]+)@(\d+)$', slot)
    if m:
        return [('', int(m.group(1), 16) << int(m.group(2)))]
    m = re.match(r'textype@(\d+)$', slot)
    if m:
        return [(n, v << int(m.group(1))) for v, n in enumerate(TEX_TYPES)]
    m = re.match(r'prcc@(\d+)$', slot)
    if m:
        return [('PR', 0), ('CC', 1 << int(m.group(1)))]
    m = re.match(r'asize@(\d+)$', slot)
    if m:
        n = ['.U32', '.S32', '.U64', '.F32.FTZ.RN', '.F16x2.RN', '.S64']
        return [('', 0)] + [(x, v << int(m.group(1))) for v, x in enumerate(n)]
    m = re.match(r'i2ifmt@(\d+)-(\d+)$', slot)
    if m:
        a, s = int(m.group(1)), int(m.group(2))
        return [('.%s%d' % (t, 8 << v), v << a | (1 << s if t == 'S' else 0)) for t in 'US' for v in range(3)]
    m = re.match(r'vfmt@(\d+)-(\d+)$', slot)
    if m:
        a, s = int(m.group(1)), int(m.group(2))
        return [('', 3 << a | 1 << s)] + [('.%s%s' % (t, n), v << a | (1 << s if t == 'S' else 0)) for t in 'SU' for n, v in (('8', 0), ('16', 2), ('32', 3))]
    m = re.match(r'vifmt@(\d+)$', slot)
    if m:
        s = int(m.group(1))
        return [('', 1 << s), ('.U16', 0), ('.S16', 1 << s)]
    if slot == 'f2iint':
        return [('.%s%d' % (t, 8 << v), v << 8 | (1 << 12 if t == 'S' else 0)) for t in 'US' for v in (1, 2, 3)]
    if slot == 'i2fint':
        return [('.%s%d' % (t, 8 << v), v << 10 | (1 << 13 if t == 'S' else 0)) for t in 'US' for v in range(4)]
    if slot == 'xmadsigns':
        return [('', 0)] + [('.%s16.%s16' % (x, y), (1 << 48 if x == 'S' else 0) | (1 << 49 if y == 'S' else 0)) for x in 'SU' for y in 'SU']
    if slot == 'ldgsize':
        return [('', 4 << 48)] + [('.' + n, v << 48) for v, n in enumerate(['U8', 'S8', 'U16', 'S16', '32', '64', '128', 'U.128'])]
    if slot == 'ccflow':
        return [('', 15)] + [('CC.' + n, v) for v, n in enumerate(CC_TESTS)]
    if slot == 'CC':
        return [('CC', 0)]
    if slot == 'txqmode':
        return [(n, v << 22) for v, n in TXQ_MODES.items()]
    if slot == 'zero':
        return [('0', 0), ('0x0', 0)]
    if slot == 'sysreg':
        return [(n, int(v) << 20) for v, n in SYSREGS]
    # dependent lists: alternatives only, meaning in `dependent`
    if slot == 'f2fround':
        return [('', 0), ('.ROUND', 8 << 39), ('.FLOOR', 9 << 39), ('.CEIL', 10 << 39), ('.TRUNC', 11 << 39), ('.PASS', 3 << 39),
                ('.RN', 0), ('.RM', 1 << 39), ('.RP', 2 << 39), ('.RZ', 3 << 39)]
    if slot == 'bsel':
        return [('', 0), ('.B0', 0), ('.B1', 1 << 41), ('.B2', 2 << 41), ('.B3', 3 << 41), ('.H0', 0), ('.H1', 2 << 41)]
    m = re.match(r'vsel@(\d+)/(\d+)$', slot)
    if m:
        a = int(m.group(1))
        return [('', 0), ('.B0', 0), ('.B1', 1 << a), ('.B2', 2 << a), ('.B3', 3 << a), ('.H0', 0), ('.H1', 1 << a)]
    if slot == 'texsmode':
        return [('', 0), ('.LZ', 0), ('.LL', 0), ('.DC', 0), ('.LZ.DC', 0), ('.LL.DC', 0)]
    if slot == 'texstype':
        return [(n, 0) for n in ('1D', '2D', 'ARRAY_2D', '3D', 'CUBE')]
    if slot == 'tldstype':
        return [(n, 0) for n in ('1D', '2D', '3D', 'ARRAY_2D')]
    if slot == 'texsswz':
        return [(n, 0) for n in ('R', 'G', 'B', 'A', 'RG', 'RA', 'GA', 'BA', 'RGB', 'RGA', 'RBA', 'GBA', 'RGBA')]
    return None


# (mode text, type) -> bits 53.. of TEXS
TEXS = {}
for mode, typ, v in [('.LZ', '1D', 0), ('', '2D', 1), ('.LZ', '2D', 2), ('.LL', '2D', 3), ('.DC', '2D', 4), ('.LL.DC', '2D', 5), ('.LZ.DC', '2D', 6),
                     ('', 'ARRAY_2D', 7), ('.LZ', 'ARRAY_2D', 8), ('.LZ.DC', 'ARRAY_2D', 9), ('', '3D', 10), ('.LZ', '3D', 11),
                     ('', 'CUBE', 12), ('.LL', 'CUBE', 13)]:
    TEXS[mode, typ] = v << 53
# (LL?, AOFFI?, MS?, type) -> bits 53.. of TLDS
TLDS = {}
for ll, ao, ms, typ, v in [(0, 0, 0, '1D', 0), (1, 0, 0, '1D', 1), (0, 0, 0, '2D', 2), (0, 1, 0, '2D', 4), (1, 0, 0, '2D', 5), (0, 0, 1, '2D', 6),
                           (1, 1, 0, '2D', 12), (0, 0, 0, '3D', 7), (1, 0, 0, '3D', 7), (0, 0, 0, 'ARRAY_2D', 8), (1, 0, 0, 'ARRAY_2D', 8)]:
    TLDS[ll, ao, ms, typ] = v << 53
SWZ_RZ = {'R': 0, 'G': 1, 'B': 2, 'A': 3, 'RG': 4, 'RA': 5, 'GA': 6, 'BA': 7}
SWZ = {'RGB': 0, 'RGA': 1, 'RBA': 2, 'GBA': 3, 'RGBA': 4}
