"""Observe single functions of the code under test over (nearly) their whole
domain.  Only functions that the repository's own tests import are used, called
the way those tests call them; a piece whose function is gone is skipped."""
import importlib
import random
import re

from . import gen, model

T = 'acetimetools.transformer.transformer'
B = 'acetimetools.generator.byteutils'


class Out:
    def __init__(self, rng, tier):
        self.rng, self.tier = rng, tier
        self.k = 1 if tier == 'quick' else 12
        self.n, self.bad, self.samples, self.skipped, self.pieces = 0, [], [], [], {}
        self.seen = set()

    def get(self, mod, *names):
        try:
            m = importlib.import_module(mod)
            r = [getattr(m, n) for n in names]
        except (ImportError, AttributeError) as e:
            self.skipped.append(str(e))
            return None
        return r[0] if len(r) == 1 else r

    def chk(self, piece, args, got, want):
        self.n += 1
        self.seen.add(hash((piece, args)))
        self.pieces[piece] = self.pieces.get(piece, 0) + 1
        if got != want:
            self.fail(piece, args, got, want)
        elif self.pieces[piece] in (1, 97):
            self.samples.append('%s%r = %r' % (piece, args, got))

    def fail(self, piece, args, got, want):
        if sum(1 for b in self.bad if b[0] == piece) < 5:
            self.bad.append((piece, '%s%r gives %r, expected %r' % (piece, args, got, want)))


class Raises:
    def __eq__(self, o):
        return isinstance(o, Raises)

    def __repr__(self):
        return 'a refusal'


R = Raises()


def call(f, *a):
    try:
        return f(*a)
    except Exception:
        return R


def names_of_sources():
    from . import engine
    out = set()
    for w in ('main', 'rearguard'):
        src = engine.real_texts(w)[1]
        out |= set(src['zones']) | set(src['links'])
    return sorted(out)


# ---------------------------------------------------------------- P09
def hashes(o):
    f = o.get(T, 'hash_name')
    if not f:
        return
    for n in names_of_sources():
        o.chk('hash_name', (n,), call(f, n), model.djb2(n))
    al = 'ABCXYZabcxyz0189_+-/'
    for _ in range(20000 * o.k):
        n = ''.join(o.rng.choice(al) for _ in range(o.rng.choice([0, 1, 2, 3, 5, 6, 7, 8, 12, 20, 40])))
        o.chk('hash_name', (n,), call(f, n), model.djb2(n))


# ---------------------------------------------------------------- P12
def tiny_years(o):
    r = o.get(T, 'to_tiny_from_to_year', 'to_tiny_until_year')
    c = o.get('acetimetools.datatypes.attyping', 'INVALID_YEAR', 'INVALID_YEAR_TINY', 'MIN_YEAR', 'MIN_YEAR_TINY', 'MAX_TO_YEAR',
              'MAX_TO_YEAR_TINY', 'MAX_UNTIL_YEAR', 'MAX_UNTIL_YEAR_TINY')
    if not r or not c:
        return
    ft, fu = r
    bases = [2000, 2050, 2100, 1970, 1900, 2127, 1873] + [o.rng.randint(1, 9999) for _ in range(3 * o.k)]
    for b in bases:
        ys = set(range(b - 300, b + 300)) | {o.rng.randint(1, 32000) for _ in range(2000)} | {1, 0, 9999, 10000, 32765}
        for y in ys:
            if not 0 <= y <= 32765:
                continue
            o.chk('to_tiny_from_to_year', (y, b), call(ft, y, b), model.tiny_to(y, b))
            o.chk('to_tiny_until_year', (y, b), call(fu, y, b), model.tiny_until(y, b))
        for y, t, u in ((c[0], c[1], c[1]), (c[2], c[3], c[3])):
            o.chk('to_tiny_from_to_year', (y, b), call(ft, y, b), t)
            o.chk('to_tiny_until_year', (y, b), call(fu, y, b), u)
        o.chk('to_tiny_from_to_year', (c[4], b), call(ft, c[4], b), c[5])
        o.chk('to_tiny_until_year', (c[6], b), call(fu, c[6], b), c[7])
    o.chk('year sentinels', (), tuple(c), (-32768, -128, -32767, -127, 32766, 126, 32767, 127))


# ---------------------------------------------------------------- P18
def c_literal(s):
    """Bytes denoted by adjacent C string literals; None when malformed."""
    out, i = [], 0
    while i < len(s):
        if s[i].isspace():
            i += 1
            continue
        if s[i] != '"':
            return None
        i += 1
        while True:
            if i >= len(s):
                return None
            ch = s[i]
            if ch == '"':
                i += 1
                break
            if ch != '\\':
                out.append(ord(ch))
                i += 1
                continue
            m = re.compile(r'\\(?:x([0-9a-fA-F]+)|([0-7]{1,3})|([\\"\'?abfnrtv]))').match(s, i)
            if not m:
                return None
            v = int(m[1], 16) if m[1] else int(m[2], 8) if m[2] else {'\\': 92, '"': 34, "'": 39, '?': 63, 'a': 7, 'b': 8, 'f': 12, 'n': 10, 'r': 13, 't': 9, 'v': 11}[m[3]]
            if v > 255:
                return None
            out.append(v)
            i = m.end()
    return ''.join(map(chr, out))


def c_names(o):
    f = o.get('acetimetools.generator.argenerator', 'compressed_name_to_c_string')
    if not f:
        return
    def one(n):
        s = call(f, n)
        o.chk('compressed_name_to_c_string', (n,), R if s is R else c_literal(s), n)
    for b in range(1, 32):
        for t in ('a', 'f', 'F', '0', '9', 'z', '-', '_', '+', ''):
            one(chr(b) + t)
            one(t + chr(b))
            one(chr(b) + chr(o.rng.randint(1, 31)) + t)
    for _ in range(4000 * o.k):
        one(''.join(o.rng.choice('abcdefABCDEF0123xyzXYZ_-+/') if o.rng.random() < .75 else chr(o.rng.randint(1, 31)) for _ in range(o.rng.randint(1, 14))))
    g = o.get(T, 'add_string')
    if not g:
        return
    from collections import OrderedDict
    for _ in range(60 * o.k):
        d, ref = OrderedDict(), {}
        for _ in range(o.rng.randint(1, 60)):
            w = o.rng.choice('abcdefghij') * o.rng.randint(0, 4)
            want = ref.setdefault(w, len(ref))
            o.chk('add_string', (w,), call(g, d, w), want)
        o.chk('add_string table', (), dict(d), ref)


# ---------------------------------------------------------------- P22
def day_functions(o):
    p = o.get(T, '_parse_on_day_string')
    if p:
        exprs = [str(d) for d in range(0, 120)] + ['last' + w for w in gen.DAYS] + \
            ['%s%s%d' % (w, op, d) for w in gen.DAYS for op in ('>=', '<=') for d in range(0, 60)]
        al = ''.join(gen.DAYS) + '<>=0123456789last -+'
        for _ in range(6000 * o.k):
            e = list(o.rng.choice(exprs))
            for _ in range(o.rng.randint(1, 2)):
                i = o.rng.randint(0, len(e))
                q = o.rng.random()
                if q < .4 and i < len(e):
                    e[i] = o.rng.choice(al)
                elif q < .7:
                    e.insert(i, o.rng.choice(al))
                elif i < len(e):
                    del e[i]
            exprs.append(''.join(e))
        for e in exprs:
            w = model.day_expr(e)
            if e.strip() != e or ' ' in e:
                continue
            o.chk('_parse_on_day_string', (e,), call(p, e), (0, 0) if w is None else w)
    f = o.get(T, '_days_in_month')
    if f:
        ys = list(range(1, 2500)) + list(range(2500, 10000, 1 if o.tier != 'quick' else 7))
        for y in ys:
            leap = y % 4 == 0 and (y % 100 != 0 or y % 400 == 0)
            for m in range(0, 14):
                o.chk('_days_in_month', (y, m), call(f, y, m), 31 if m in (0, 13) else [31, 29 if leap else 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31][m - 1])
    c = o.get(T, 'calc_day_of_month')
    if c:
        def one(y, m, dow, dom):
            leap = y % 4 == 0 and (y % 100 != 0 or y % 400 == 0)
            ml = [31, 29 if leap else 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31][m - 1]
            if abs(dom) > ml:
                return
            yy, mm, dd = model.civil_from_days(model.resolve_day(y, m, dow, dom))
            got = call(c, y, m, dow, dom)
            if isinstance(got, tuple) and len(got) == 2 and yy != y:
                got = ((got[0] - 1) % 12 + 1, got[1])
            o.chk('calc_day_of_month', (y, m, dow, dom), got, (mm, dd))
        allexpr = [(0, d) for d in range(1, 32)] + [(w, d) for w in range(1, 8) for d in range(-31, 32)]
        years = [2000, 2023, 2024, 1900] if o.tier == 'quick' else range(1601, 2001, 1)
        for y in years:
            for m in range(1, 13):
                for dow, dom in (allexpr if o.tier == 'quick' else o.rng.sample(allexpr, 120)):
                    one(y, m, dow, dom)
        for _ in range(60000 * o.k):
            one(o.rng.randint(2, 9998), o.rng.randint(1, 12), *o.rng.choice(allexpr))


# ---------------------------------------------------------------- P23
def time_functions(o):
    r = o.get(T, 'time_string_to_seconds', 'INVALID_SECONDS')
    if r:
        f, inv = r
        o.chk('INVALID_SECONDS is not a time', (), -90000 <= inv <= 90000, False)

        def one(s):
            w = model.secs(s)
            if s.strip() != s:
                return
            o.chk('time_string_to_seconds', (s,), call(f, s), inv if w is None else w)
        for h in range(0, 28):
            for mi in range(0, 62):
                for s in ('%d:%02d', '%02d:%02d'):
                    one((o.rng.choice(['', '-', '+']) + s) % (h, mi))
                for se in ([0, 1, 59, 60, o.rng.randint(0, 61)] if o.tier == 'quick' else range(62)):
                    one('%s%d:%02d:%02d' % (o.rng.choice(['', '-', '+']), h, mi, se))
            for sg in ('', '-', '+'):
                one('%s%d' % (sg, h))
                one('%s%02d' % (sg, h))
        for s in ('', '-', '+', ':', '1:', ':1', '1::2', '--1', '+-1', '1:2:3:4', '1.5', '0x10', '1:0x2', '1e1', '1_0', '1:2_0', '٣', '²', '1:٣', 'w', '2:00w', 'nan', '1:-2', '1:+2', '-0', '-0:00', '99', '100', '1:100',
                  '24:00', '25:00', '25:00:00', '25:00:01', '25:01', '25:59:59', '-25:00', '24:59:59', '26', '-26:00', '1: 2', '1 :2'):
            one(s)
        al = '0123456789:+-. _abxesw'
        for _ in range(20000 * o.k):
            s = list('%s%d:%02d:%02d' % (o.rng.choice(['', '-', '+']), o.rng.randint(0, 26), o.rng.randint(0, 61), o.rng.randint(0, 61)))
            for _ in range(o.rng.randint(1, 2)):
                i = o.rng.randint(0, len(s))
                q = o.rng.random()
                if q < .4 and i < len(s):
                    s[i] = o.rng.choice(al)
                elif q < .7:
                    s.insert(i, o.rng.choice(al))
                elif i < len(s):
                    del s[i]
            one(''.join(s))
    r = o.get(T, 'seconds_to_hms', 'hms_to_seconds')
    if r:
        f, g = r
        for s in list(range(0, 100000, 1)) + [o.rng.randint(0, 10 ** 7) for _ in range(3000)]:
            h = (s // 3600, s // 60 % 60, s % 60)
            o.chk('seconds_to_hms', (s,), call(f, s), h)
            o.chk('hms_to_seconds', h, call(g, *h), s)
    r = o.get(T, 'div_to_zero', 'truncate_to_granularity')
    if r:
        f, g = r
        for b in (1, 2, 3, 7, 15, 60, 300, 900, 1800, 3600, o.rng.randint(1, 5000)):
            vals = set(range(-4 * b - 3, 4 * b + 4)) if b < 1000 else set()
            for q in range(-30, 31):
                vals |= {q * b - 1, q * b, q * b + 1}
            vals |= {o.rng.randint(-10 ** 5, 10 ** 5) for _ in range(800 * o.k)} | {o.rng.randint(-10 ** 20, 10 ** 20) for _ in range(60 * o.k)}
            for a in vals:
                q = abs(a) // b * (1 if a >= 0 else -1)
                o.chk('div_to_zero', (a, b), call(f, a, b), q)
                o.chk('truncate_to_granularity', (a, b), call(g, a, b), q * b)
    p = o.get('acetimetools.extractor.extractor', 'parse_at_time_string')
    if p:
        for _ in range(3000 * o.k):
            t = '%s%d%s' % (o.rng.choice(['', '-', '+']), o.rng.randint(0, 25), o.rng.choice(['', ':00', ':3', ':30', ':30:15', ':07:09']))
            for suf in ('', 'w', 's', 'u', 'g', 'z'):
                w = (t, suf)
                got = call(p, t + suf)
                if suf in 'z' and suf:
                    # 'z' is one of TZ's names of UTC
                    ok = isinstance(got, tuple) and got[0] == t and got[1] in ('z', 'u', 'g') or got is R
                    o.chk('parse_at_time_string', (t + suf,), ok, True)
                else:
                    o.chk('parse_at_time_string', (t + suf,), got, w)
            for suf in o.rng.sample('abcdefhijklmnopqrtvxyABCDWSUGZ', 4):
                o.chk('parse_at_time_string', (t + suf,), call(p, t + suf), R)


# ---------------------------------------------------------------- P05
def months(o):
    f = o.get('acetimetools.extractor.extractor', 'month_to_index')
    if not f:
        return
    full = ['January', 'February', 'March', 'April', 'May', 'June', 'July', 'August', 'September', 'October', 'November', 'December']
    for i, m in enumerate(full):
        for n in range(3, len(m) + 1):
            for s in (m[:n], m[:n].lower(), m[:n].upper(), ''.join(o.rng.choice([c.lower(), c.upper()]) for c in m[:n])):
                o.chk('month_to_index', (s,), call(f, s), i + 1)
    for _ in range(3000):
        s = ''.join(o.rng.choice('abcdefgjlmnoprstuvy01') for _ in range(o.rng.randint(0, 4)))
        if not any(s.lower().startswith(m[:3].lower()) for m in full):
            o.chk('month_to_index', (s,), call(f, s), R)


# ---------------------------------------------------------------- P24
def go_literal(s):
    """Bytes denoted by a Go expression  "..." + "..."  and the piece sizes."""
    out, sizes, i, want_str = bytearray(), [], 0, True
    tok = re.compile(r'\s*(?:"((?:[^"\\\n]|\\x[0-9a-fA-F]{2})*)"|(\+))')
    while i < len(s):
        m = tok.match(s, i)
        if not m:
            return (None, None) if s[i:].strip() else (bytes(out), sizes)
        if (m[2] is None) != want_str:
            return None, None
        want_str = not want_str
        if m[2] is None:
            b = bytes(int(x[2:], 16) if x[0] == '\\' and len(x) == 4 else ord(x) for x in re.findall(r'\\x[0-9a-fA-F]{2}|.', m[1]))
            sizes.append(len(b))
            out += b
        i = m.end()
    return (None, None) if want_str else (bytes(out), sizes)


def writers(o):
    for bits in (8, 16, 32):
        for signed in (False, True):
            name = 'write_%s%d' % ('i' if signed else 'u', bits)
            f = o.get(B, name)
            if not f:
                continue
            lo, hi = (-(1 << bits - 1), (1 << bits - 1) - 1) if signed else (0, (1 << bits) - 1)
            if bits == 8:
                vals = set(range(-1200, 1200))
            elif bits == 16:
                vals = set(range(-70000, 140000, 1 if o.tier != 'quick' else 5))
            else:
                vals = {o.rng.randint(lo, hi) for _ in range(20000 * o.k)}
            for e in (lo, hi, 0, 127, 128, 255, 256, 32767, 32768, 65535, 65536, 1 << 31, 1 << 32, -(1 << 31), -(1 << 15), 1 << 63, 1 << 64, 10 ** 12):
                vals |= set(range(e - 300, e + 300))
            for x in vals:
                pre = bytes([o.rng.randint(0, 255) for _ in range(o.rng.randint(0, 2))])
                d = bytearray(pre)
                ok = call(f, d, x) is not R
                if lo <= x <= hi:
                    o.chk(name, (x,), (ok, bytes(d)), (True, pre + x.to_bytes(bits // 8, 'little', signed=signed)))
                else:
                    o.chk(name, (x,), (ok, bytes(d)), (False, pre))
    h = o.get(B, 'hex_encode')
    g = o.get(B, 'convert_to_go_string')
    lens = [0, 1, 2, 3, 4, 5, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 100, 255, 256, 257]
    for _ in range(400 * o.k):
        n = o.rng.choice(lens)
        d = bytearray(o.rng.choice([0, 9, 10, 13, 34, 92, 127, 128, 255, o.rng.randint(0, 255), o.rng.randint(0, 255), o.rng.randint(0, 255)]) for _ in range(n))
        keep = bytes(d)
        if h:
            s = call(h, d)
            o.chk('hex_encode', (keep,), R if s is R else go_literal('"%s"' % s)[0], keep)
        if g:
            ch = o.rng.choice([1, 2, 3, 4, 5, 7, 8, 11, 16, 32, 64, max(n, 1), n + 1])
            s = call(g, d, ch, o.rng.choice(['', '\t', '\t\t', '    ']))
            b, sizes = (R, None) if s is R else go_literal(s)
            o.chk('convert_to_go_string', (keep, ch), b, keep)
            if sizes:
                o.chk('convert_to_go_string chunks', (len(keep), ch), sizes, [ch] * (n // ch) + ([n % ch] if n % ch else []) or [0])
        o.chk('input kept', (keep,), bytes(d), keep)
    if h:
        b = bytearray(range(256))
        o.chk('hex_encode', ('all bytes',), go_literal('"%s"' % call(h, b))[0], bytes(b))


SWEEPS = {'P05': [months], 'P09': [hashes], 'P12': [tiny_years], 'P18': [c_names], 'P22': [day_functions], 'P23': [time_functions], 'P24': [writers]}


def run(pid, rng, tier):
    o = Out(rng, tier)
    for f in SWEEPS.get(pid, ()):
        f(o)
    return o
