"""Reference reading of whole texts, by the same tables as the symbolic specification: what a concrete text assembles
to, that it must be rejected (None), or that nothing is specified about it (UNSPEC). Used to partition the values of a
symbolic byte or token; the deciding is done by the solver over the code."""
import functools, math, re, struct
from isa import *
import gen

UNSPEC = 'unspec'


class Reject(Exception):
    pass


class Unspec(Exception):
    pass


OPS = '+-~|[]@,;'
SEP = ' \t\r\n.' + OPS
DIG = '0123456789'
LETTERS = 'abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ'


def tokenize(s):
    """[(kind, value, start)]"""
    out = []
    i, n = 0, len(s)
    while True:
        while i < n and s[i] in ' \t\r\n':
            i += 1
        if i >= n:
            return out
        c = s[i]
        if c == '\0':
            raise Reject('null')
        nxt = s[i + 1] if i + 1 < n else '\0'
        if c in OPS and not (c in '+-' and nxt in DIG):
            out.append(('op', c, i))
            i += 1
            continue
        if c in DIG + '+-' and not (c in DIG and nxt == 'D'):
            j = i + 1
            while j < n and s[j] in DIG + '+-ABCDEFabcdefXx':
                j += 1
            body = s[i:j]
            if j < n and s[j] == '.':
                j += 1
                while j < n and s[j] in DIG:
                    j += 1
                t = s[i:j]
                if j < n and s[j] not in SEP + '\0' or not re.fullmatch(r'[+-]?\d+\.\d*', t):
                    raise Reject('float ' + t)
                out.append(('flt', t, i))
            else:
                if j < n and s[j] not in SEP + '\0':
                    raise Reject('literal')
                if re.fullmatch(r'[+-]?0[bB][01]+', body):
                    raise Unspec('binary literal')
                m = re.fullmatch(r'([+-]?)(0[xX][0-9a-fA-F]+|0[0-7]*|[1-9]\d*)', body)
                if not m:
                    raise Reject('literal ' + body)
                d = m.group(2)
                v = int(d, 16) if d[:2] in ('0x', '0X') else int(d, 8) if d[0] == '0' else int(d)
                v = -v if m.group(1) == '-' else v
                if not -(1 << 63) <= v < 1 << 63:
                    raise Reject('too large')
                out.append(('int', v, i, m.group(1)))
            i = j
            continue
        j = i + 1
        while j < n and s[j] not in SEP + '\0':
            j += 1
        t = s[i:j]
        if t.endswith(':'):
            out.append(('label', t[:-1], i))
            i = j
            continue
        if ':' in t:
            raise Unspec('colon')
        m = re.fullmatch(r'(!?)[Pp]([Tt]|\d)', t)
        if m:
            k = 7 if m.group(2) in 'Tt' else int(m.group(2))
            if m.group(2) == '7' or k > 7:
                raise Reject('predicate')
            out.append(('pred', (k, bool(m.group(1))), i))
        elif t[0] == '!':
            raise Reject('!')
        elif t == 'RZ':
            out.append(('reg', 255, i))
        elif re.fullmatch(r'R\d+', t):
            v = int(t[1:])
            if v > 254:
                raise Reject('register')
            out.append(('reg', v, i))
        else:
            out.append(('id', t, i))
        i = j


def find_labels(s):
    """label -> address; labels are those that start a line"""
    out = {}
    pc = 8
    for k, line in enumerate(s.split('\n')):
        m = re.match(r'([A-Za-z][A-Za-z0-9_]*):', line)
        if m:
            if m.group(1) in out:
                raise Unspec('duplicate label')
            out[m.group(1)] = pc
        for c in line:
            if c == ';':
                pc += 8
                if pc % 32 == 0:
                    pc += 8
    return out


@functools.lru_cache(None)
def alt_tokens(text):
    return tuple(('int', 0) if x in ('0', '0x0') else ('id', x) for x in re.findall(r'\.?[^.]+', text))


def single(x):
    try:
        return struct.unpack('<f', struct.pack('<f', x))[0]
    except OverflowError:
        return math.copysign(math.inf, x)


def lit_single(t):
    """correctly rounded single of a decimal literal"""
    import fractions
    neg = t.startswith('-')
    x = fractions.Fraction(t.lstrip('+-') + ('0' if t.endswith('.') else ''))
    d = float(x) if x < fractions.Fraction(2) ** 1000 else math.inf
    f = single(d)
    if not math.isinf(d) and fractions.Fraction(d) != x:  # double rounding: decide near ties exactly
        if not math.isinf(f):
            b = struct.unpack('<I', struct.pack('<f', f))[0]
            best = None
            for c in (b - 1, b, b + 1):
                if 0 <= c <= 0x7f800000:
                    v = fractions.Fraction(2) ** 128 if c == 0x7f800000 else fractions.Fraction(struct.unpack('<f', struct.pack('<I', c))[0])
                    k = (abs(v - x), c & 1)
                    if best is None or k < best[0]:
                        best = (k, c)
            f = struct.unpack('<f', struct.pack('<I', best[1]))[0]
    return -f if neg else f


def half_bits(x):
    """rounded to nearest even, without the sign"""
    x = abs(x)
    if math.isnan(x):
        return 0x7fff
    try:
        return struct.unpack('<H', struct.pack('<e', x))[0]
    except OverflowError:
        return 0x7c00


def float_field(s, x, sign):
    if s in ('f20', 'f32'):
        raw = 0x7fc00000 if math.isnan(x) else struct.unpack('<I', struct.pack('<f', abs(x)))[0]
        return (raw | sign << 31) << 20 if s == 'f32' else (raw >> 12 & 0x7ffff) << 20 | sign << 56
    if s == 'd20':
        raw = 0x7ff8 << 48 if math.isnan(x) else struct.unpack('<Q', struct.pack('<d', abs(x)))[0]
        return (raw >> 44 & 0x7ffff) << 20 | sign << 56
    m = re.match(r'h(9|16)@(\d+)(?:-(\d+))?$', s)
    raw = half_bits(x)
    if m.group(1) == '9':
        return (raw >> 6) << int(m.group(2)) | sign << int(m.group(3))
    return (raw | sign << 15) << int(m.group(2))


class Match:
    def __init__(self, form, toks, pc, labels):
        self.form, self.toks, self.pc, self.labels = form, toks, pc, labels
        self.slots = SLOTS[form.idx]

    def tok(self, j):
        return self.toks[j] if j < len(self.toks) else ('end',)

    def op(self, j, c):
        t = self.tok(j)
        return t[0] == 'op' and t[1] == c

    def run(self, i, j, word, reuse, env):
        """generator of (next token, word, reuse) for slots i.. starting at token j"""
        if i == len(self.slots):
            if self.check(env):
                yield j, word | env.get('late', 0), reuse
            return
        s = self.slots[i]
        go = lambda j2, w=0, r=0, **e: self.run(i + 1, j2, word | w, reuse | r, dict(env, **e) if e else env)
        T = self.tok(j)
        if s == ',':
            if self.op(j, ','):
                yield from go(j + 1)
            return
        alts = ALTS[self.form.idx][i]
        if alts is not None:
            for k, (text, v) in sorted(enumerate(alts), key=lambda x: -len(alt_tokens(x[1][0]))):
                want = alt_tokens(text)
                if all(self.tok(j + q)[0] == w[0] and self.tok(j + q)[1] == w[1] for q, w in enumerate(want)):
                    if (s.startswith('t:tldlod') or s.startswith('.AOFFI') or s.startswith('.MS')) and self.form.mn == 'TLDS':
                        v = 0
                    yield from go(j + len(want), v, **{'a%d' % i: text})
            return
        m = re.match(r'([-~])(\d+)$', s)
        if m:
            if self.op(j, m.group(1)):
                yield from go(j + 1, 1 << int(m.group(2)), **{'a%d' % i: '-'})
            else:
                yield from go(j)
            return
        if s.startswith('abs('):
            if self.op(j, '|'):
                yield from go(j + 1, 1 << int(s[4:]), abs=True)
            else:
                yield from go(j, abs=False)
            return
        if s == ')':
            if env['abs']:
                if self.op(j, '|'):
                    yield from go(j + 1)
            else:
                yield from go(j)
            return
        m = re.match(r'([DSM])(\d+)$', s)
        if m:
            if T[0] != 'reg':
                return
            a = int(m.group(2))
            j, r = self.reuse(j + 1, a)
            if m.group(1) == 'M':
                if T[1] == env['r%d' % a]:
                    yield from go(j, 0, r)
                return
            yield from go(j, T[1] << a, r, **{'r%d' % a: T[1]})
            return
        m = re.match(r'P(inv)?(\d+)(!)?$', s)
        if m:
            if T[0] == 'pred' and (m.group(3) or not T[1][1]):
                a = int(m.group(2))
                k = 7 - T[1][0] if m.group(1) else T[1][0]
                yield from go(j + 1, k << a | (8 << a if T[1][1] else 0))
            return
        if s in ('cb', 'ldcaddr'):
            if not (T == ('id', 'c') + T[2:] and self.op(j + 1, '[') and self.tok(j + 2)[0] == 'int' and self.op(j + 3, ']') and self.op(j + 4, '[')):
                return
            b = self.tok(j + 2)[1]
            if not 0 <= b <= 31:
                return
            if s == 'cb':
                o = self.tok(j + 5)
                if o[0] == 'int' and self.op(j + 6, ']') and -32768 <= o[1] <= 32767 and o[1] % 4 == 0:
                    yield from go(j + 7, b << 34 | (o[1] >> 2 & 0x3fff) << 20)
                return
            for j2, w, r in self.mem(j + 4, (20, 16, 0)):
                yield from go(j2, b << 36 | w, r)
            return
        if s.startswith('mem:'):
            m = re.match(r'mem:(\w+)(?::(\d+):(\d+))?$', s)
            for j2, w, r in self.mem(j, None if m.group(1) == 'none' else (int(m.group(1)), int(m.group(2)), int(m.group(3)))):
                yield from go(j2, w, r)
            return
        m = re.match(r'([us])(\d+)@(\d+)$', s)
        if m or s in ('i20', 'u20x'):
            if T[0] != 'int':
                return
            v = T[1]
            if s == 'i20':
                if -(1 << 19) <= v < 1 << 19:
                    yield from go(j + 1, (v & 0x7ffff) << 20 | (1 << 56 if v < 0 else 0))
                return
            if s == 'u20x':
                if 0 <= v < 1 << 20:
                    yield from go(j + 1, (v & 0x7ffff) << 20 | (v >> 19) << 56)
                return
            n, a = int(m.group(2)), int(m.group(3))
            lo, hi = (0, 1 << n) if m.group(1) == 'u' else (-(1 << n - 1), 1 << n - 1)
            if lo <= v < hi:
                yield from go(j + 1, (v & (1 << n) - 1) << a)
            return
        if s in ('f20', 'f32', 'd20') or s.startswith('h9@') or s.startswith('h16@'):
            if T[0] == 'flt':
                x = lit_single(T[1])
                yield from go(j + 1, float_field(s, x, int(math.copysign(1, x) < 0)))
            elif T[0] == 'int':
                v = T[1]
                if abs(v) > 1 << 53:
                    raise Unspec('large integer in a floating operand')
                if s in ('f20', 'f32') and single(float(v)) != v:
                    return
                yield from go(j + 1, float_field(s, float(v) if s == 'd20' else single(float(v)), int(v < 0)))
            else:
                k = j + 1 if self.op(j, '+') or self.op(j, '-') else j
                if self.tok(k)[0] == 'id' and self.tok(k)[1] in ('QNAN', 'INF'):
                    yield from go(k + 1, float_field(s, math.nan if self.tok(k)[1] == 'QNAN' else math.inf, int(self.op(j, '-'))))
            return
        if s in ('a:imm', 'a:patch', 'a:phys'):
            if not (T[0] == 'id' and T[1] == 'a' and self.op(j + 1, '[')):
                return
            j += 2
            w = r = 0
            if s != 'a:imm':
                if self.tok(j)[0] != 'reg':
                    return
                w = self.tok(j)[1] << 8
                j, r = self.reuse(j + 1, 8)
            else:
                w = 0xff00
            if s != 'a:phys':
                if s == 'a:patch':
                    signed = self.tok(j)[0] == 'int' and self.tok(j)[3]
                    if self.op(j, '+'):
                        j += 1
                    elif not signed and self.tok(j)[0] == 'int':
                        raise Unspec('offset without a sign')
                if self.tok(j)[0] != 'int':
                    return
                v = self.tok(j)[1]
                lo, hi = (0, 1024) if s == 'a:imm' else (-1024, 1024)
                if not lo <= v < hi:
                    return
                w |= (v & (0x3ff if s == 'a:imm' else 0x7ff)) << 20
                j += 1
            if self.op(j, ']'):
                yield from go(j + 1, w, r)
            return
        if s == 'label':
            if T[0] == 'id':
                if T[1] not in self.labels:
                    return
                v = self.labels[T[1]]
            elif T[0] == 'int':
                v = T[1]
            else:
                return
            d = v - self.pc - 8
            if -(1 << 23) <= d < 1 << 23:
                yield from go(j + 1, (d & 0xffffff) << 20)
            return
        raise ValueError(s)

    def reuse(self, j, a):
        t = self.tok(j)
        if t[0] == 'id' and t[1] == '.reuse' and a in (8, 20, 39):
            return j + 1, {8: 1, 20: 2, 39: 4}[a]
        return j, 0

    def mem(self, j, off):
        if not self.op(j, '['):
            return
        j += 1
        w, r, reg = 0xff00, 0, None
        if self.tok(j)[0] == 'reg':
            reg = self.tok(j)[1]
            w = reg << 8
            j, r = self.reuse(j + 1, 8)
        t = self.tok(j)
        if off and t[0] == 'int':
            if reg is not None and not t[3]:
                raise Unspec('offset without a sign')
            at, n, sh = off
            lo, hi = (0, 1 << n) if reg in (None, 255) else (-(1 << n - 1), 1 << n - 1)
            if not lo <= t[1] < hi or t[1] % (1 << sh):
                return
            w |= (t[1] >> sh & (1 << n) - 1) << at
            j += 1
        if self.op(j, ']'):
            yield j + 1, w, r

    def check(self, env):
        """combinations of modifiers, and the words that depend on several"""
        late = 0
        at = lambda pre: [(i, env.get('a%d' % i, '')) for i, s in enumerate(self.slots) if s.startswith(pre)]
        for i, s in enumerate(self.slots):
            a = env.get('a%d' % i, '')
            if s == 'f2fround':
                d, r = [(x or '.F32') for _, x in at('t:ffmt')][:2]
                if a in ('.ROUND', '.FLOOR', '.CEIL', '.TRUNC', '.PASS') and d != r or a in ('.RN', '.RM', '.RP', '.RZ') and d == r:
                    return False
            elif s == 'bsel' and a:
                src = (at('i2fint') + at('i2ifmt@10'))[0][1]
                if (a[1] == 'H') != src.endswith('16'):
                    return False
            elif s.startswith('vsel@') and a:
                src = at('vfmt@%s-' % s.split('/')[1])[0][1]
                if a[1] == 'B' and not src.endswith('8') or a[1] == 'H' and not src.endswith('16'):
                    return False
            elif s == 'texstype':
                k = (at('texsmode')[0][1], a)
                if k not in TEXS:
                    return False
                late |= TEXS[k]
            elif s == 'tldstype':
                k = (int(at('t:tldlod')[0][1] == '.LL'), int(at('.AOFFI')[0][1] != ''), int(at('.MS')[0][1] != ''), a)
                if k not in TLDS or k[0] and a in ('3D', 'ARRAY_2D'):
                    return False
                late |= TLDS[k]
            elif s == 'texsswz':
                rz = env['r28'] == 255
                if (a in SWZ_RZ) != rz:
                    return False
                late |= (SWZ_RZ if rz else SWZ)[a] << 50
            elif s.startswith('.PO@'):
                bits = [int(x) for x in re.match(r'\.PO@(\d+)\+(\d+)', s).groups()]
                negs = [1 for q, t in enumerate(self.slots) if env.get('a%d' % q) and (m := re.match(r'(?:-|\.NEG@)(\d+)$', t)) and int(m.group(1)) in bits]
                if len(negs) + (2 if a else 0) > (2 if a else 1):
                    return False
        env['late'] = late
        return True


FORMS = load_forms()
SLOTS = [gen.split_slots(f) for f in FORMS]
ALTS = [[enum_alts(s, f) for s in SLOTS[f.idx]] for f in FORMS]
BYMN = {}
for _f in FORMS:
    BYMN.setdefault(_f.mn, []).append(_f)


def annotations(toks, j):
    """(scheduling slot, next token)"""
    stall = wb = rb = None
    y, deps = False, 0
    while j < len(toks) and toks[j][:2] == ('op', '@'):
        t = toks[j + 1] if j + 1 < len(toks) else ('end', '')
        if t[0] == 'id' and t[1] in ('Y', 'YIELD'):
            if y:
                raise Reject('yield twice')
            y = True
            j += 2
            continue
        v = toks[j + 2] if j + 2 < len(toks) else ('end', '')
        if t[0] != 'id' or t[1] not in ('WAIT', 'WB', 'RB', 'DEP') or v[0] != 'int' or not 0 <= v[1] <= (15 if t[1] == 'WAIT' else 5):
            raise Reject('annotation')
        v = v[1]
        if t[1] == 'WAIT' and stall is None:
            stall = v
        elif t[1] == 'WB' and wb is None:
            wb = v
        elif t[1] == 'RB' and rb is None:
            rb = v
        elif t[1] == 'DEP' and not deps >> v & 1:
            deps |= 1 << v
        else:
            raise Reject('twice')
        j += 3
    return (stall or 0) | (16 if y else 0) | (7 if wb is None else wb) << 5 | (7 if rb is None else rb) << 8 | deps << 11, j


def assemble(s):
    """words, None (must be rejected) or UNSPEC; texts"""
    try:
        return _assemble(s)
    except Reject:
        return None
    except Unspec:
        return UNSPEC


TYPES = {'vertex': 0, 'tess_control': 1, 'hull': 1, 'tess_eval': 2, 'domain': 2, 'geometry': 3, 'fragment': 4, 'pixel': 4, 'compute': 5}
OPTIONS = {'.num_gprs': (1, 0x7fffffff), '.workgroup_size': (3, 0x7fffffff), '.shared_memory': (1, 0x7fffffff), '.local_memory': (1, 0xffffff)}


def option(s, toks, j, st):
    """reads the option at token j into st; returns the next token"""
    line = lambda k: s.count('\n', 0, toks[k][2])
    name, l = toks[j][1], line(j)
    if name in ('.dksh', '.type'):
        n = 1
    elif name in OPTIONS:
        n = OPTIONS[name][0]
    else:
        raise Reject('unknown option')
    args = toks[j + 1:j + 1 + n]
    if any(a[0] == 'label' for a in args):
        raise Unspec('label inside an option')
    if len(args) < n or line(j + n) != l:
        raise Reject('argument of an option')
    if name in ('.dksh', '.type'):
        if 'type' in st or args[0][0] != 'id' or args[0][1] not in TYPES:
            raise Reject('type')
        st['type'] = TYPES[args[0][1]]
        if name == '.dksh':
            st['dksh'] = True
    else:
        if any(a[0] != 'int' or not 0 <= a[1] <= OPTIONS[name][1] for a in args):
            raise Reject('option value')
        if name in st:
            raise Unspec('option given twice')
        st[name] = [a[1] for a in args]
    j += 1 + n
    if j < len(toks) and line(j) == l:
        if toks[j][0] == 'label':
            raise Unspec('label on the line of an option')
        raise Reject('something after an option')
    if j >= len(toks):
        raise Reject('nothing after an option')
    return j


def container(n, entry, gprs=8, dims=(1, 1, 1), shared=0, local=0):
    """32-bit fields of the control section in front of n words of code"""
    pos = (local + 15) // 16 * 16
    f = [0x48534B44, 24, 256, (8 * n + 255) // 256 * 256, 24, 1,
         5, entry, gprs, 0, 0, pos * 32 + 0x800, *dims, (shared + 255) // 256 * 256, pos, 0, 0x800, 0]
    return f + [0] * (64 - len(f))


def _assemble(s):
    if '\0' in s:
        return None
    lexerr = None
    toks = tokenize(s)
    labels = find_labels(s)
    insns = []
    st = {}
    pending = False
    j, n = 0, len(toks)
    while True:
        while j < n and toks[j][0] == 'label':
            b = s.rfind('\n', 0, toks[j][2]) + 1
            if toks[j][2] != b or not re.fullmatch(r'[A-Za-z][A-Za-z0-9_]*', toks[j][1]):
                raise Unspec('label that does not start a line')
            j += 1
        if j >= n:
            if pending:
                raise Reject('nothing after an option')
            break
        if toks[j][0] == 'id' and toks[j][1].startswith('.'):
            j = option(s, toks, j, st)
            pending = True
            continue
        pending = False
        e = j
        while e < n and toks[e][:2] != ('op', ';'):
            if toks[e][0] == 'label':
                raise Unspec('label inside an instruction')
            e += 1
        if e >= n:
            raise Reject('no semicolon')
        pc = gen.address(len(insns))
        guard = 7
        if toks[j][:2] == ('op', '@'):
            if toks[j + 1][0] != 'pred':
                raise Reject('guard')
            guard = toks[j + 1][1][0] | (8 if toks[j + 1][1][1] else 0)
            j += 2
        if toks[j][0] != 'id':
            raise Reject('mnemonic')
        for f in BYMN.get(toks[j][1], []):
            if f.np and guard != 7:
                continue
            found = None
            for j2, w, r in Match(f, toks[:e], pc, labels).run(0, j + 1, f.opcode | guard << 16, 0, {}):
                try:
                    slot, j3 = annotations(toks[:e], j2)
                except Reject:
                    continue
                if j3 == e:
                    found = (w, slot | r << 17)
                    break
            if found:
                insns.append(found)
                break
        else:
            raise Reject('no such instruction')
        j = e + 1
    out = []
    for k in range(0, len(insns), 3):
        sl = [insns[q][1] if q < len(insns) else 0x7E0 for q in range(k, k + 3)]
        out.append(sl[0] | sl[1] << 21 | sl[2] << 42)
        out += [w for w, _ in insns[k:k + 3]]
    while len(out) % 4:
        out.append(gen.NOPWORD)
    if st.get('type', 5) != 5:
        raise Reject('program type')
    if st.get('dksh'):
        main = labels.get('main')
        if main is None or main % 32 != 8:
            raise Reject('entry point')
        if main >= 8 * len(out):
            raise Unspec('the entry point is behind the code')
        one = lambda k, d: st[k][0] if k in st else d
        f = container(len(out), main - 8, one('.num_gprs', 8), st.get('.workgroup_size', (1, 1, 1)), one('.shared_memory', 0), one('.local_memory', 0))
        out = [f[k] | f[k + 1] << 32 for k in range(0, 64, 2)] + out + [0] * (-len(out) % 32)
    return out


def classes():
    """representatives of bytes: [(byte, [bytes that mean the same])]; bytes that occur in no construct are one class"""
    known = set(map(ord, DIG + LETTERS + SEP + '!_:\0'))
    rest = [b for b in range(256) if b not in known]
    return [(b, [b]) for b in sorted(known)] + [(rest[-1], rest)]
