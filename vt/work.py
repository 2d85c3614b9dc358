"""Workloads: which cases a check runs.  All random choices come from the rng."""
import random

from . import gen, model, engine
from .engine import Case, ALL

CHEAP = ('python', 'json', 'zonelist')
PY = ('python',)


def sub(rng):
    return random.Random(rng.getrandbits(48))


# ---------------------------------------------------------------- options
def window(rng, scope, tiny_base=None):
    if scope == 'basic':
        s = rng.choice([1980, 1981, 1990, 1999, 2000, 2005, 2010, 2024])
    elif scope == 'extended':
        s = rng.choice([1974, 1975, 1980, 1990, 2000, 2011])
    else:
        s = rng.choice([12, 1800, 1850, 1900, 1950, 1970, 2000, 2020])
    u = s + rng.choice([1, 2, 3, 5, 10, 25, 50, 100])
    if rng.random() < .1:
        u = s
    elif rng.random() < .3:
        s = rng.randint(*{'basic': (1980, 2120), 'extended': (1974, 2120)}.get(scope, rng.choice([(12, 3000), (1830, 2100)])))
        u = s + rng.choice([rng.randint(0, 12), rng.randint(0, 120)])
    return s, u


def base_for(rng, s, u):
    """A base year for which the range fits."""
    lo, hi = u - 125, s + 125
    return 2050 if lo <= 2050 <= hi and rng.random() < .8 else rng.choice([lo, hi, rng.randint(lo, hi)])


def options(rng, scope=None, strict=None, gran=.25, estimate=.4):
    scope = scope or rng.choice(['basic', 'extended', 'complete'])
    s, u = window(rng, scope)
    o = dict(scope=scope, start_year=s, until_year=u, estimate=rng.random() < estimate,
             strict=(rng.random() < .6) if strict is None else strict, compress=rng.random() < .7)
    if scope != 'complete':
        o['tiny_base_year'] = rng.choice([2100, 2100, 2050, 2000])
        if not (model.tiny_ok(s - 1, o['tiny_base_year']) and model.tiny_ok(u, o['tiny_base_year'])):
            o['tiny_base_year'] = 2050
        if rng.random() < .15 or not (model.tiny_ok(s - 1, o['tiny_base_year']) and model.tiny_ok(u, o['tiny_base_year'])):
            o['tiny_base_year'] = base_for(rng, s, u)
    elif rng.random() < .3:
        o['tiny_base_year'] = rng.choice([2050, 2000, 1900, 0, 12345])      # recorded only
    if rng.random() < gran:
        o['granularity'] = rng.choice([60, 300, 900, 1800, 3600])
    return o


def attempt(rng, make, tries=8, ok=lambda X: True):
    """A case the model expects to succeed, when one is found quickly."""
    c = None
    for _ in range(tries):
        c = make(sub(rng))
        src = c.src if isinstance(c.src, dict) else None
        if src is None:
            return c
        try:
            X = model.expect(model.read_source(src), c.opts, engine.include_set(c.include))
        except model.Fail:
            continue
        if X.zones and ok(X):
            return c
    return c


def layout(rng, db, hostile=.5):
    return gen.write_hostile(db, rng) if rng.random() < hostile else gen.write(db, rng)


def general(rng, name, surfaces=ALL, scope=None, strict=None, hostile=.3, gran=.2, valid=True, estimate=.4, localtime=False,
            compress=None, **prof):
    def make(r):
        o = options(r, scope, strict, gran, estimate)
        if compress is not None:
            o['compress'] = compress
        basic = o['scope'] == 'basic'
        p = dict(basic=basic and r.random() < .75, fine=r.random() < .3, window=(o['start_year'], o['until_year']),
                 p_month=.05 if basic else .3, jan1=.05 if basic else .3, noalign=r.choice([0, 0, 0, .1]),
                 until_full=0 if basic and r.random() < .5 else .6,
                 far=.04 if not o['estimate'] and r.random() < .25 else 0, finite=r.choice([0, 0, .15]),
                 nopol=r.choice([0, 0, 0, .15]) if basic else 0)
        p.update(prof)
        return Case(name, layout(r, gen.gen_db(r, **p), hostile), o, surfaces=surfaces, localtime=localtime)
    return attempt(rng, make) if valid else make(sub(rng))


REAL_OPTS = [
    ('main', dict(scope='extended', estimate=True)),
    ('rearguard', dict(scope='basic', start_year=2000, until_year=2050, estimate=True)),
    ('main', dict(scope='complete', start_year=1800, until_year=2100)),
    ('rearguard', dict(scope='extended', start_year=1974, until_year=2050, tiny_base_year=2050, ignore_buf=True, estimate=True)),
    ('main', dict(scope='basic', start_year=1980, until_year=2010)),
    ('rearguard', dict(scope='complete', start_year=1940, until_year=1990, estimate=True)),
    ('main', dict(scope='extended', start_year=2010, until_year=2030, compress=False)),
    ('main', dict(scope='complete', start_year=1900, until_year=2050, strict=False, granularity=900)),
    ('rearguard', dict(scope='complete', start_year=2000, until_year=10000)),
    ('main', dict(scope='basic', start_year=2000, until_year=2100, strict=False, granularity=1800)),
]


def real(n, start=0, surfaces=ALL, localtime=False, scopes=None, **kw):
    out = []
    pool = [x for x in REAL_OPTS if not scopes or x[1]['scope'] in scopes]
    for i in range(n):
        w, o = pool[(start + i) % len(pool)]
        out.append(Case('real-%s-%s-%d' % (w, o['scope'], i), w, dict(o, **kw), surfaces=surfaces, localtime=localtime))
    return out


def real_sweep(rng, n, surfaces=('json',), localtime=False, scopes=('basic', 'extended', 'complete')):
    """Real sources under many windows."""
    out = []
    for i in range(n):
        sc = scopes[i % len(scopes)]
        lo = {'basic': 1980, 'extended': 1974, 'complete': rng.choice([1, 1700, 1840, 1850, 1900])}[sc]
        s = rng.randint(max(lo, 1840) if lo > 1000 else lo, 2040) if rng.random() < .8 else lo
        u = s + rng.choice([0, 1, 2, 7, 30, 60, 100, 150])
        o = dict(scope=sc, start_year=s, until_year=u, strict=rng.random() < .7, estimate=False)
        if sc != 'complete':
            o['tiny_base_year'] = 2050 if u < 2175 else 2100
        if sc == 'complete' and rng.random() < .3:
            o['until_at_granularity'] = rng.choice([60, 900])
            o['strict'] = False
        out.append(Case('sweep%d' % i, rng.choice(['main', 'rearguard']), o, surfaces=surfaces, localtime=localtime))
    return out


def mixed(rng, tier, n_all=16, n_cheap=200, n_real=2, n_sweep=6, localtime=False, cheap=CHEAP, **kw):
    k = 1 if tier == 'quick' else 15
    out = real(n_real if tier == 'quick' else len(REAL_OPTS), start=rng.randint(0, 5), localtime=localtime)
    out += [general(rng, 'all%d' % i, localtime=localtime, **kw) for i in range(n_all * min(k, 8))]
    out += [general(rng, 'cheap%d' % i, surfaces=cheap, localtime=localtime, valid=i % 5 != 0, **kw) for i in range(n_cheap * k)]
    out += real_sweep(rng, n_sweep * k, localtime=localtime)
    return out


# ---------------------------------------------------------------- faults (P08)
def base_db(rng, **kw):
    kw = dict(dict(n_zone=(2, 5), n_pol=(1, 3), n_link=(1, 3), p_month=0, jan1=0, until_full=0, fixed=0, noalign=0), **kw)
    return gen.gen_db(rng, basic=True, **kw)


def clean_base(rng, o):
    """A base that these options accept, so that what is added decides."""
    for _ in range(12):
        db = base_db(rng)
        try:
            model.expect(model.read_source(gen.write(db, rng)), o)
            return db
        except model.Fail:
            pass
    db = gen.Db()
    db.rules = {'Mid': [rule(frm='2'), rule(frm='2', mon='Oct', on='Sun>=8', save='1:00', letter='D')]}
    db.zones = {'Base/One': [simple_era()], 'Base/Two': [simple_era(rules='Mid', format='M%sT')], 'Base/Three': [simple_era(off='-3:00')]}
    db.links = {'Base/Link': 'Base/Two'}
    return db


def simple_era(**kw):
    return dict(dict(off='1:00', rules='-', format='CET', until=[]), **kw)


def collide(rng):
    """Two names with one djb2 hash: 33*a+b == 33*(a+1)+(b-33)."""
    a = rng.choice('ABCDEFGHIJKLMNOPQRSTUVWXYabcdefghijklmnopqrstuvwxy')
    b = rng.choice('bcdefghijklmnopqrstuvwxyz')
    b2 = chr(ord(b) - 33)
    if not b2.isalnum():
        b, b2 = 'b', 'A'
    pre = rng.choice(['', 'Zone/', 'Pacific/', 'X_'])
    post = rng.choice(['', 'ville', '1', '_x'])
    return pre + a + b + post, pre + chr(ord(a) + 1) + b2 + post


ZERO_ID = None


def zero_name():
    """A name whose djb2 hash is 0 (found by meeting in the middle)."""
    global ZERO_ID
    if ZERO_ID is None:
        al = 'abcdefghijklmnopqrstuvwxyz'
        inv = pow(33, -1, 1 << 32)
        fwd = {}
        for a in al:
            for b in al:
                for c in al:
                    for d in al:
                        fwd[model.djb2('Z/' + a + b + c + d)] = 'Z/' + a + b + c + d
        import itertools
        for t in itertools.product(al, repeat=4):
            h = 0
            for ch in reversed(t):
                h = ((h - ord(ch)) * inv) & 0xffffffff
            if h in fwd:
                ZERO_ID = fwd[h] + ''.join(t)
                assert model.djb2(ZERO_ID) == 0
                break
    return ZERO_ID


def put(db, rng, kind, name, other=None):
    if kind == 'zone':
        db.zones[name] = [simple_era()]
    else:
        db.links[name] = other if other in db.zones and rng.random() < .6 else rng.choice(list(db.zones))


FAULTS = ['hash', 'symbol', 'policy-symbol', 'link-to-link', 'fmt-z', 'fmt-s', 'fmt-s-fixed', 'start', 'tiny-start', 'tiny-until',
          'zero-id', 'loss-zone', 'loss-link', 'fmt-z-2', 'baddays', 'fmt-pct']


def fault_case(rng, fault, scope, surfaces=CHEAP):
    s, u = window(rng, scope)
    o = dict(scope=scope, start_year=s, until_year=u, tiny_base_year=base_for(rng, s, u), estimate=rng.random() < .3)
    db = clean_base(rng, o)
    inc = None
    kinds = [rng.choice(['zone', 'link']), rng.choice(['zone', 'link'])]
    if fault == 'hash':
        a, b = collide(rng)
        put(db, rng, kinds[0], a)
        put(db, rng, kinds[1], b, a)
    elif fault == 'symbol':
        base = rng.choice(['Abc/De', 'Etc/GMT', 'x', 'a+b'])
        a, b = rng.choice([('-', '_'), ('/', '_'), ('+', '_PLUS_'), ('-', '/')])
        put(db, rng, kinds[0], base + a + 'Q1')
        put(db, rng, kinds[1], base + b + 'Q1', base + a + 'Q1')
    elif fault == 'policy-symbol':
        a, b = rng.choice([('P-q', 'P_q'), ('P+q', 'P_PLUS_q'), ('p/q', 'p-q')])
        r = next(iter(db.rules.values()))[0]
        for n in (a, b):
            db.rules[n] = [dict(r)]
            db.zones['Use/' + n.replace('/', '').replace('+', 'x') + str(len(db.zones))] = [simple_era(rules=n)]
    elif fault == 'link-to-link':
        l = rng.choice(list(db.links))
        n = 'Zz/LinkToLink%d' % rng.randint(0, 99)
        k = rng.random()
        if k < .5:
            db.links[n] = l
        elif k < .75:
            db.links[n] = n
        else:
            # a circle, or a chain that ends nowhere
            db.links[n] = 'Aa/Other'
            db.links['Aa/Other'] = rng.choice([n, 'No/Such'])
    elif fault in ('fmt-z', 'fmt-z-2'):
        z = rng.choice(list(db.zones))
        db.zones[z][-1] = simple_era(format=rng.choice(['%zX', 'A%z', '%z/%z', '%z%s']) if fault == 'fmt-z' else '%z%z')
    elif fault == 'fmt-s':
        z = rng.choice(list(db.zones))
        db.zones[z][-1] = simple_era(format=rng.choice(['%s', 'E%sT', '%sX']))
    elif fault == 'fmt-s-fixed':
        z = rng.choice(list(db.zones))
        db.zones[z][-1] = simple_era(rules='1:00', format='E%sT')
    elif fault == 'fmt-pct':
        z = rng.choice(list(db.zones))
        f = rng.choice(['%', 'A%', 'A%T', '%S', '%Z', '%d', '%s%s', '%s/%s', 'A/%s', 'A%s/B', '%%', '%%s', 'A%s%', '%5s', 'x%sy%sz'])
        pol = rng.choice(['-', '1:00', rng.choice(list(db.rules)), rng.choice(list(db.rules))]) if db.rules else '-'
        at = rng.randint(0, len(db.zones[z]) - 1)
        db.zones[z][at] = dict(db.zones[z][at], rules=pol, format=f)
    elif fault == 'start':
        o['start_year'] = {'basic': rng.choice([1979, 1970, 1900]), 'extended': rng.choice([1973, 1900]), 'complete': s}[scope]
        o['tiny_base_year'] = 2000
    elif fault == 'tiny-start':
        o.update(start_year=2000, until_year=2010, tiny_base_year=rng.choice([2127, 2128, 2126, 2125, 2150, 1873, 1874, 1875]))
    elif fault == 'tiny-until':
        o.update(start_year=2000, tiny_base_year=2000, until_year=rng.choice([2124, 2125, 2126, 2127, 2128, 2200, 10000]))
    elif fault == 'zero-id':
        put(db, rng, kinds[0], zero_name())
    elif fault == 'loss-zone':
        z = rng.choice(list(db.zones))
        db.zones[z][-1] = simple_era(off=rng.choice(['1:00:01x', '26:00', 'abc', '1:60']))
        if rng.random() < .5:
            db.zones[z][-1] = simple_era(rules='NOSUCH', format='X')
    elif fault == 'loss-link':
        for i in range(rng.choice([1, 1, 2])):
            db.links['Lost/Link%d' % i] = rng.choice(['No/Such', 'no_such', db.links[rng.choice(list(db.links))].upper() + 'x'])
    elif fault == 'baddays':
        z = rng.choice(list(db.zones))
        y = rng.randint(s, u + 1)
        db.zones[z] = [simple_era(until=[str(y), rng.choice(['Feb', 'Apr', 'Jan']), rng.choice(['32', 'Sun>=32', 'Foo>=1', 'lastFoo', '0', 'Sun>1'])]),
                       simple_era(off='2:00')]
    k = rng.random()
    if k < .25:         # a list of everything changes nothing
        inc = list(db.zones) + list(db.links)
        rng.shuffle(inc)
    elif k < .3 and fault == 'loss-link':
        inc = [next(iter(db.links))]
    return Case('%s-%s' % (fault, scope), layout(rng, db, .3), o, inc, surfaces=surfaces)


def faults(rng, tier):
    out = []
    for k in range(3 if tier == 'quick' else 40):
        for f in FAULTS:
            for sc in ('basic', 'extended', 'complete'):
                c = fault_case(sub(rng), f, sc, surfaces=CHEAP if k or sc != 'extended' else ALL)
                c.prefill = k % 2 == 0
                out.append(c)
        # those with many variants
        for f in ('hash', 'symbol', 'symbol', 'policy-symbol', 'link-to-link', 'loss-link', 'fmt-pct', 'fmt-s'):
            for _ in range(5):
                out.append(fault_case(sub(rng), f, rng.choice(['basic', 'extended', 'complete'])))
    return out


# ---------------------------------------------------------------- limits (P28)
def rule(**kw):
    return dict(dict(frm='2000', to='max', mon='Mar', on='lastSun', at='2:00', suf='', save='0', letter='S'), **kw)


def limits(rng, tier):
    out = []
    L = [('arduino',), ('c',), ('go',), ('python', 'json')]

    def add(name, db, scope='complete', surfaces=L, **o):
        o = dict(dict(scope=scope, start_year=2000, until_year=2050, tiny_base_year=2100, estimate=False), **o)
        src = gen.write(db, rng)
        for s in surfaces:
            out.append(Case(name + '-' + s[0], src, o, surfaces=s))

    def one(era=None, rules=None, zones=None):
        db = gen.Db()
        db.rules = rules or {}
        db.zones = zones or {'Aa/Bb': [era or simple_era()], 'Aa/Cc': [simple_era()]}
        db.links = {'Ll/Mm': next(iter(db.zones))}
        return db
    # delta fields
    for mins in (-61, -60, -59, -129, -128, -127, 127, 128, 129, 165, 166, 179, 180, 150, 300, 1500):
        t = '%s%d:%02d' % ('-' if mins < 0 else '', abs(mins) // 60, abs(mins) % 60)
        pol = {'P': [rule(), rule(mon='Sep', save=t, letter='D')]}
        for sc in ('extended', 'complete'):
            add('save%d-%s' % (mins, sc), one(simple_era(rules='P', format='A%sT'), pol), sc, strict=False, granularity=60)
            add('era%d-%s' % (mins, sc), one(simple_era(rules=t, format='AT')), sc, strict=False, granularity=60)
            add('dera%d-%s' % (mins, sc), one(simple_era(rules=t, format='AT')), sc, strict=False)
    # offsets and times at their extremes
    for t in ('25:00', '-25:00', '24:59:59', '-24:59:59', '0:00:15', '-0:00:14', '-0:00:01', '-0:01', '-0:14', '-0:15', '-0:16', '14:59', '-12:31:45'):
        for sc in ('extended', 'complete'):
            add('off%s-%s' % (t, sc), one(simple_era(off=t)), sc, strict=False)
            if t[0] != '-':
                add('at%s-%s' % (t, sc), one(simple_era(rules='P', format='A%sT'), {'P': [rule(), rule(mon='Sep', at=t, suf=rng.choice('wsu'), save='1:00', letter='D')]}), sc, strict=False)
                add('until%s-%s' % (t, sc), one(zones={'A/B': [simple_era(until=['2010', 'Jul', '5', t + rng.choice('wsu')]), simple_era(off='2:00')]}), sc, strict=False)
    # coarse values the low format cannot hold
    for g in (1, 15, 30, 7):
        db = one(simple_era(rules='P', format='A%sT', off='1:02:03'), {'P': [rule(), rule(mon='Sep', at='2:03:04', save='0:20', letter='D')]})
        add('gran%d' % g, db, 'extended', strict=False, granularity=g)
        add('gran%dc' % g, db, 'complete', strict=False, granularity=g)
    # one such value at a time
    D = lambda **kw: {'P': [rule(), rule(mon='Sep', save='1:00', letter='D', **kw)]}
    for g in (1, 15, 30):
        for nm, db in (('off', one(simple_era(off='1:02:30'))), ('noff', one(simple_era(off='-1:02:30'))), ('at', one(simple_era(rules='P', format='A%sT'), D(at='2:00:30'))),
                       ('until', one(zones={'A/B': [simple_era(until=['2010', 'Jul', '5', '2:00:30']), simple_era(off='2:00')]}))):
            for sc in ('extended', 'complete'):
                add('one%s%d%s' % (nm, g, sc[0]), db, sc, strict=False, granularity=g)
    for g in (60, 300, 15, 30):
        for s in ('0:20', '0:50', '-0:05', '1:00:30'):
            pol = {'P': [rule(), rule(mon='Sep', save=s, letter='D')]}
            for sc in ('extended', 'complete'):
                add('onesave%d%s%s' % (g, sc[0], s), one(simple_era(rules='P', format='A%sT'), pol), sc, strict=False, granularity=g)
                add('onedelta%d%s%s' % (g, sc[0], s), one(simple_era(rules=s + ('' if s.count(':') > 1 else ':00'), format='AT')), sc, strict=False, granularity=g)
    # counts
    def many_rules(n):
        return {'P': [rule(frm=str(2000 + i // 12), to='only', mon=gen.MONTHS[i % 12], on='5', save='0' if i % 2 else '1:00', letter='SD'[i % 2]) for i in range(n)]}
    for n in (253, 254, 255, 256, 257):
        add('rules%d' % n, one(simple_era(rules='P', format='A%sT'), many_rules(n)), 'complete', until_year=2060)
        db = one()
        db.zones['Many/Eras'] = [simple_era(off='%d:00' % (i % 12), until=['%d' % (2000 + i // 12), gen.MONTHS[i % 12], '3']) for i in range(n - 1)] + [simple_era()]
        add('eras%d' % n, db, 'complete', until_year=2060)
        db = one()
        per = 100
        nl = n - 1      # plus the empty letter
        for a in range(0, nl, per):
            db.rules['P%d' % (a // per)] = [rule(frm=str(2000 + (i - a)), to='only', on='5', save='0' if i % 2 else '1:00', letter='L%03d' % i) for i in range(a, min(nl, a + per))]
            db.zones['U/Z%d' % (a // per)] = [simple_era(rules='P%d' % (a // per), format='A%sT')]
        add('letters%d' % n, db, 'complete', until_year=2110)
        db = one()
        for i in range(n - 2):
            db.rules['P%d' % i] = [rule(letter='-')]
            db.zones['U/Z%d' % i] = [simple_era(rules='P%d' % i, format='A%sT')]
        add('policies%d' % n, db, 'complete', surfaces=[('go',), ('c',)])
    for n in (28, 29, 30, 31, 32, 40):
        db = one()
        for i in range(n):
            for j in range(4):
                db.zones['Frag%02d/C%d' % (i, j)] = [simple_era()]
        for comp in (True, False):
            add('frag%d-%s' % (n, comp), db, rng.choice(['extended', 'complete']), surfaces=[('arduino',), ('c',)], compress=comp)
    # buffer sizes of one byte
    for n in (9, 127, 128, 254, 255, 256, 257, 300, 511, 512, 4000):
        for sc in ('basic', 'extended', 'complete'):
            add('bufsize%d%s' % (n, sc[0]), one(simple_era(rules='P', format='A%sT'), {'P': [rule(), rule(mon='Sep', save='1:00', letter='D')]}), sc,
                estimate=True, ignore_buf=True)
            for c in out[-len(L):]:
                c.env = {'VT_BUF_MOD': '1+%d' % (n - 1)}
    # registry sizes of two bytes
    for n in (65536, 70000) if tier == 'quick' else (65535, 65536, 70000):
        db, seen, k = gen.Db(), set(), 0
        while len(seen) < n:
            name, k = 'Z%05x' % k, k + 1
            if model.djb2(name) not in seen:
                seen.add(model.djb2(name))
                if len(seen) < 40000:
                    db.zones[name] = [simple_era()]
                else:
                    db.links[name] = 'Z00000'
        add('registry%d' % n, db, surfaces=[('arduino',)])
    # years of 16 bits
    def dst(**kw):
        return one(simple_era(rules='P', format='A%sT'), {'P': [rule(frm='1990', mon='Sep', save='0'), rule(**dict(dict(frm='1990', save='1:00', letter='D'), **kw))]})
    for s, u in ((1, 32765), (1990, 32766), (2000, 32767), (2000, 32768), (2000, 40000), (2000, 65535), (2000, 65537), (2000, 67586),
                 (-32767, 2050), (-32769, 2050), (-63536, 2050), (-65000, -64000), (70000, 70010), (32760, 32767), (32760, 32768)):
        add('range%d_%d' % (s, u), dst(), start_year=s, until_year=u)
    for y in (9999, 32765, 32766, 32767, 32768, 40000, 65536 + 2010, 10 ** 6):
        add('to%d' % y, dst(to=str(y)))
        add('to%dx' % y, dst(to=str(y)), 'extended', tiny_base_year=2050, granularity=60)
        add('from%d' % y, dst(frm=str(y)), until_year=rng.choice([2050, 32767] if y < 10000 else [2050, 9000]))
        db = dst()
        db.zones['Cut/Late'] = [simple_era(until=[str(y)]), simple_era(off='2:00', format='B')]
        add('until%d' % y, db, until_year=rng.choice([2050, 32767]))
    for b in (-32767, -1, 0, 32766, 32767, 32768, 40000, 65536 + 2050, -32769, -70000):
        add('base%d' % b, dst(), tiny_base_year=b)
    # letter bytes for Go: total length 254..257
    for total in (254, 255, 256, 257):
        db = one()
        ls, left, i = [], total, 0
        while left > 0:
            k = min(left, 50)
            if left - k == 1 or 0 < left - k < 3:
                k -= 3
            ls.append(('%02d' % i + 'x' * 60)[:k])
            left -= k
            i += 1
        db.rules['P'] = [rule(frm=str(2000 + i), to='only', letter=l, save='0' if i % 2 else '1:00') for i, l in enumerate(ls)]
        db.zones['U/Z'] = [simple_era(rules='P', format='A%sT')]
        add('goletters%d' % total, db, 'complete', surfaces=[('go',)])
    # 16-bit string offsets of Go
    for total in (65534, 65535, 65536, 66000):
        add('gonames%d' % total, big_names(rng, total), 'complete', surfaces=[('go',)])
        db, left, i = one(), total - 3, 0       # CET as well
        while left > 0:
            k = min(left, 120)
            if 0 < left - k < 8:
                k -= 8
            db.zones['F/%d' % i] = [simple_era(format=('%04d' % i + 'x' * 120)[:k])]
            left -= k
            i += 1
        add('goformats%d' % total, db, 'complete', surfaces=[('go',)])
    if tier != 'quick':
        for n in (65500, 65540):
            db, i, step = one(), 0, 13
            for z in range(n // 4000 + 1):
                k = min(4000, n - 2 - i)
                db.zones['Big/E%d' % z] = [simple_era(off='%d:00' % (j % 12), until=['%d' % (2000 + j // 12), gen.MONTHS[j % 12], '3']) for j in range(k - 1)] + [simple_era()]
                i += k
            add('goeras%d' % n, db, 'complete', surfaces=[('go',)], until_year=2500)
            db, i = one(), 0
            while i < n:
                k = min(4000, n - i)
                db.rules['P%d' % i] = [rule(frm=str(2000 + j // 12), to='only', mon=gen.MONTHS[j % 12], on='5', save='0' if j % 2 else '1:00', letter='SD'[j % 2]) for j in range(k)]
                db.zones['U/Z%d' % i] = [simple_era(rules='P%d' % i, format='A%sT')]
                i += k
            add('gorules%d' % n, db, 'complete', surfaces=[('go',)], until_year=2500)
    return out


def big_names(rng, total):
    """Zones whose names add up to about `total` bytes (Go 16-bit offsets)."""
    db = gen.Db()
    left, i = total, 0
    while left > 0:
        n = 'Nn/%05d' % i + 'x' * 92
        if left < len(n) + 12:
            n = ('Nn/%05d' % i + 'x' * 120)[:max(left, 9)]
        db.zones[n] = [simple_era()]
        left -= len(n)
        i += 1
    return db


# ---------------------------------------------------------------- one defect at a time (P06, P07, P08, P20, P25)
ZONE_DEFECTS = {
    'off-bad': lambda r: dict(off=r.choice(['abc', '1:60', '26:00', '1:00:60', '-', '1:2:3:4', '+1:00', '1:00x'])),
    'off-gran': lambda r: dict(off=r.choice(['1:00:01', '-1:00:01', '0:00:59', '12:34:56'])),
    'off-wide': lambda r: dict(off=r.choice(['25:00', '-25:00'])),
    'off-odd': lambda r: dict(off=r.choice(['0:20', '-0:20', '5:45', '-9:30', '0:01', '14', '-12', '0'])),
    'fixed': lambda r: dict(rules=r.choice(['1:00', '0:30', '-1:00', '2:00'])),
    'fixed-bad': lambda r: dict(rules=r.choice(['1:6x', '1:60', '26:00', ':', '1:'])),
    'fixed-zero': lambda r: dict(rules=r.choice(['0:00', '-0:00', '00:00'])),
    'fixed-gran': lambda r: dict(rules=r.choice(['1:00:01', '0:20', '-0:10', '0:01'])),
    'no-policy': lambda r: dict(rules='NOSUCH', format='X%sT'),
    'until-month': lambda r: dict(until=[None, r.choice(['Jan', 'Mar', 'Dec'])]),
    'until-day': lambda r: dict(until=[None, r.choice(['Jan', 'Feb']), r.choice(['1', '2', 'lastSun', 'Sun>=8'])]),
    'until-time': lambda r: dict(until=[None, 'Jan', '1', r.choice(['0:00', '0:00s', '1:00', '0', '0:00u'])]),
    'until-bad': lambda r: dict(until=[None, r.choice(['Jan', 'Jul']), '3', r.choice(['1:60', '26:00', ':0', '1:x0', '1:2:3:4', '1:2:60'])]),
    'until-neg': lambda r: dict(until=[None, r.choice(['Jan', 'Jul']), '3', r.choice(['-1:00', '-0:15', '-2:30s'])]),
    'until-suffix': lambda r: dict(until=[None, 'Jan', '1', r.choice(['0:00', '0', '1:00']) + r.choice('gzgzsuw')]),
    'until-gran': lambda r: dict(until=[None, 'Jul', '3', r.choice(['1:00:01', '0:20', '0:01', '23:59:59', '1:00:30u'])]),
    'until-jan': lambda r: dict(until=[None, 'Jan', r.choice(['Sun<=1', 'Mon<=3', 'Sat<=6', 'Tue<=2'])]),
    'until-dec': lambda r: dict(until=[None, 'Dec', r.choice(['Sun>=31', 'Mon>=28', 'Sat>=26'])]),
    'until-day-bad': lambda r: dict(until=[None, 'Mar', r.choice(['32', '0', 'Sun>1', 'lastFoo', 'Foo>=1'])]),
    'until-order': lambda r: dict(until=['same']),
}
RULE_DEFECTS = {
    'at-bad': lambda r: dict(at=r.choice([':0', '1:60', '26:00', '2:00:60', '1:2:3:4', '2:x0'])),
    'at-neg': lambda r: dict(at=r.choice(['-1:00', '-0:15', '-2:00s'])),
    'at-gran': lambda r: dict(at=r.choice(['2:00:01', '0:20', '0:01', '24:00:59'])),
    'at-suffix': lambda r: dict(suf=r.choice(['s', 'u', 'g', 'z'])),
    'at-late': lambda r: dict(at=r.choice(['24:00', '25:00', '0', '24:30'])),
    'save-bad': lambda r: dict(save=r.choice(['x', '1:60', '1:00:60', '26:00'])),
    'save-gran': lambda r: dict(save=r.choice(['1:00:01', '0:20', '-0:10', '0:01'])),
    'save-wide': lambda r: dict(save=r.choice(['3:00', '2:45', '-1:00', '-1:15', '5:00', '-2:00'])),
    'on-bad': lambda r: dict(on=r.choice(['32', '0', 'Sun>1', 'lastFoo', 'Foo>=1', 'Sun>=', 'x', 'sun>=1'])),
    'on-jan': lambda r: dict(mon='Jan', on=r.choice(['Sun<=1', 'Mon<=2', 'Tue<=3', 'Wed<=4', 'Thu<=5', 'Fri<=6'])),
    'on-jan-ok': lambda r: dict(mon='Jan', on=r.choice(['Sun<=7', 'Mon<=8', 'Sun>=2', '31', 'lastSun', 'Sun>=29'])),
    'on-dec': lambda r: dict(mon='Dec', on=r.choice(['Sun>=26', 'Mon>=27', 'Tue>=28', 'Wed>=29', 'Thu>=30', 'Fri>=31'])),
    'on-dec-ok': lambda r: dict(mon='Dec', on=r.choice(['Sun>=25', 'Mon>=24', '31', 'lastSun', 'Sun<=3', 'Sun<=31'])),
    'jan1': lambda r: dict(mon='Jan', on='1'),
    'two-a-month': lambda r: dict(twice=True),
}


def defect_case(rng, name, scope, surfaces=CHEAP):
    s, u = window(rng, scope)
    u = max(u, s + 3)
    o = dict(scope=scope, start_year=s, until_year=u, tiny_base_year=base_for(rng, s, u), strict=rng.random() < .7, estimate=rng.random() < .2, compress=rng.random() < .6)
    if rng.random() < .3:
        o['granularity'] = rng.choice([1, 60, 900, 3600])
    db = clean_base(rng, o)
    for l in range(rng.randint(0, 2)):
        db.links['Dl/Link%d' % l] = 'Dz/Zone'
    # where the defect lies: in range, at its edges, before it, after it
    where = rng.choice(['in', 'in', 'in', 'edge', 'old', 'new'])
    y = {'in': rng.randint(s, u - 1), 'edge': rng.choice([s - 2, s - 1, s, u - 1, u, u + 1]), 'old': s - rng.randint(2, 9), 'new': u + rng.randint(1, 9)}[where]
    y = max(y, 10)
    if name in ZONE_DEFECTS:
        d = ZONE_DEFECTS[name](rng)
        if 'until' in d:
            t = d['until']
            es = [simple_era(until=[str(y - rng.randint(1, 3))]), simple_era(off='2:00', until=[str(y)] + t[1:]), simple_era(off='3:00', until=[str(y + rng.randint(1, 3))]),
                  simple_era(off='4:00')]
            if t == ['same']:
                es[0]['until'] = [str(y)] if rng.random() < .7 else [str(y + rng.randint(1, 4))]
                if rng.random() < .5 and scope != 'basic':
                    es[0]['until'] = [str(y), 'Jan', '1', rng.choice(['0:00', '1:00'])]
            elif rng.random() < .3:
                del es[0]
        else:
            es = [simple_era(until=[str(y - 2)]), simple_era(off='2:00', until=[str(y)]), simple_era(off='3:00')]
            es[rng.choice([0, 1, 1, 2])].update(d)
        db.zones['Dz/Zone'] = es
    else:
        d = RULE_DEFECTS[name](rng)
        p = [rule(frm=str(y - 8), to='only', on='5', mon='Mar'), rule(frm=str(y - 6), to='only', on='5', mon='Aug', save='1:00', letter='D'),
             rule(frm=str(y), to='only', on='lastSun', mon='Apr', save='1:00', letter='D'), rule(frm=str(y), to='only', on='Sun>=8', mon='Oct'),
             rule(frm=str(y + 7), to='max', on='9', mon='May', save='0:30' if rng.random() < .2 else '1:00', letter='D'), rule(frm=str(y + 7), to='max', on='9', mon='Nov')]
        k = rng.choice([2, 2, 3])
        if d.pop('twice', None):
            x = dict(p[k], on=rng.choice(['25', '1', 'Sun>=20']))
            p.insert(k + (x['on'] != '1'), x)
        else:
            p[k].update(d)
        if rng.random() < .3:
            rng.shuffle(p)
        db.rules['DefP'] = p
        db.zones['Dz/Zone'] = [simple_era(rules='DefP', format='D%sT')]
        if rng.random() < .5:
            db.zones['Dz/Other'] = [simple_era(until=[str(rng.randint(s - 1, u))]), simple_era(rules='DefP', format='O%sT')]
    return Case('defect-%s-%s' % (name, scope), layout(rng, db, .2), o, surfaces=surfaces)


DAY_DEFECTS = 'until-jan until-dec until-day-bad on-bad on-jan on-jan-ok on-dec on-dec-ok'.split()


def defects(rng, tier, scopes=('basic', 'extended', 'complete'), n=2, surfaces=CHEAP, names=None):
    out = []
    for _ in range(n if tier == 'quick' else 20 * n):
        for name in names or list(ZONE_DEFECTS) + list(RULE_DEFECTS):
            for sc in scopes:
                c = defect_case(sub(rng), name, sc, surfaces)
                c.prefill = len(out) % 3 == 0
                out.append(c)
    return out


# ---------------------------------------------------------------- include lists (P20)
def include_for(rng, src):
    names = list(src['zones']) + list(src['links'])
    k = rng.choice([0, 1, 2, 3, len(names) // 2, max(0, len(names) - 1), len(names)])
    pick = rng.sample(names, min(k, len(names)))
    if rng.random() < .5:
        # close over link targets
        pick += [src['links'][n] for n in pick if n in src['links']]
    if rng.random() < .2:
        pick.append('No/Such_Zone')
    if rng.random() < .4:
        # nearly the name of something
        n = rng.choice(names)
        m = rng.choice([model.symbol(n), n.lower(), n.upper(), n.split('/')[0], n.split('/')[0] + '/', n.split('/')[-1], n[:-1], n + 'x', '/' + n, n + '/', n.replace('_', '-'),
                        n.replace('/', '_'), n.replace('-', '_'), n.replace('+', '-'), '*', n.split('/')[0] + '/*', n + ';', '"%s"' % n])
        if m.strip() and m[0] != '#' and m not in names:
            pick.insert(rng.randint(0, len(pick)), m)
    lines = []
    for n in pick:
        lines.append(rng.choice(['', ' ', '\t', '  ']) + n + rng.choice(['', ' ', '\t']))
        k = rng.random()
        if k < .15:
            lines.append('# ' + rng.choice(names))
        elif k < .25:
            lines.append('')
        elif k < .3:
            lines.append('   #' + rng.choice(names))
        elif k < .35:
            lines.append('   ')
    if rng.random() < .3:
        lines.insert(0, '# a list')
    return lines


def includes(rng, tier):
    k = 1 if tier == 'quick' else 12
    out = []
    for i in range(160 * k):
        def make(r, i=i):
            c = general(r, 'inc%d' % i, surfaces=CHEAP, valid=False, n_zone=(2, 9), n_link=(0, 6))
            c.include = include_for(r, model.read_source(c.src))
            return c
        out.append(attempt(rng, make) if i % 4 else make(sub(rng)))
    for i in range(8 * min(k, 4)):
        w = ['main', 'rearguard'][i % 2]
        o = dict(REAL_OPTS[rng.randint(0, len(REAL_OPTS) - 1)][1], estimate=i % 3 == 0)
        out.append(Case('real-inc%d' % i, w, o, include_for(rng, engine.real_texts(w)[1]), surfaces=ALL if i < 3 else CHEAP))
    # faults do not hide behind the list
    for i in range(6 * k):
        c = fault_case(sub(rng), rng.choice(['hash', 'symbol', 'link-to-link']), rng.choice(['basic', 'extended', 'complete']))
        z = list(model.read_source(c.src)['zones'])
        c.include = rng.sample(z, 1)
        out.append(c)
    return out


# ---------------------------------------------------------------- granularity and strictness (P11)
ODD = ['0:00:01', '1:00:30', '2:07', '0:14:59', '0:15:01', '3:59:59', '0:00:59', '12:34:56', '1:01', '25:00', '24:59']
BADT = ['25:01', '26:00', '1:60', '1:00:60', 'x', '1:2:3:4', '--1', '1:', ':30', '1.5']


def gran_case(rng, name, surfaces=CHEAP):
    def make(r):
        scope = r.choice(['basic', 'extended', 'complete', 'complete'])
        o = options(r, scope, None, 0, .2)
        k = r.random()
        if k < .3:
            o['granularity'] = r.choice([1, 7, 15, 60, 300, 900, 1800, 3600])
        for f in ('until_at_granularity', 'offset_granularity', 'delta_granularity'):
            if r.random() < .35:
                o[f] = r.choice([1, 15, 60, 120, 300, 600, 900, 1200, 3600])
        p = dict(basic=scope == 'basic', fine=r.random() < .5, window=(o['start_year'], o['until_year']), p_month=0 if scope == 'basic' else .2,
                 jan1=0, noalign=r.choice([.05, .2, .5]), until_full=0 if scope == 'basic' else .7)
        db = gen.gen_db(r, **p)
        # isolated odd or invalid values
        for _ in range(r.randint(0, 3)):
            v = r.choice(ODD if r.random() < .7 else BADT)
            if r.random() < .3:
                v = '-' + v
            k = r.random()
            if k < .35 and db.rules:
                x = r.choice(r.choice(list(db.rules.values())))
                x[r.choice(['at', 'save'])] = v if v[-1].isdigit() else '25:01'
            elif k < .7:
                x = r.choice(r.choice(list(db.zones.values())))
                x['off'] = v if v[-1].isdigit() else '25:01'
            else:
                x = r.choice(r.choice(list(db.zones.values())))
                if len(x['until']) > 3:
                    x['until'][3] = v if v[-1].isdigit() else '25:01'
        return Case(name, layout(r, db, .2), o, surfaces=surfaces)
    return make(sub(rng)) if rng.random() < .3 else attempt(rng, make)


def granularity(rng, tier):
    k = 1 if tier == 'quick' else 15
    out = [gran_case(rng, 'gran%d' % i) for i in range(260 * k)]
    out += [gran_case(rng, 'granall%d' % i, ALL) for i in range(10 * min(k, 8))]
    for i in range(6 * k):
        o = dict(scope=rng.choice(['extended', 'complete', 'basic']), start_year=rng.choice([1980, 1990, 2000]), until_year=2050, tiny_base_year=2050,
                 strict=False, estimate=False)
        if o['scope'] == 'complete':
            o['start_year'] = rng.choice([1800, 1900, 2000])
        for f in ('until_at_granularity', 'offset_granularity', 'delta_granularity'):
            if rng.random() < .5:
                o[f] = rng.choice([60, 300, 600, 900, 1800, 3600])
        out.append(Case('real-gran%d' % i, rng.choice(['main', 'rearguard']), o, surfaces=CHEAP))
    return out


# ---------------------------------------------------------------- tiny years (P12)
def tiny(rng, tier):
    k = 1 if tier == 'quick' else 10
    out = []
    for i in range(90 * k):
        def make(r, i=i):
            base = r.choice([2100, 2050, 2000, 2120, 1995, 2110])
            s = r.choice([r.randint(max(1980, base - 125), min(base + 100, 2200)), max(1980, base - 125)])
            u = min(s + r.choice([1, 5, 20, 60, 120]), base + 125)
            sc = r.choice(['basic', 'extended', 'extended'])
            o = dict(scope=sc, start_year=s, until_year=u, tiny_base_year=base, estimate=False, strict=False)
            p = dict(basic=sc == 'basic', window=r.choice([(s, u), (base - 127, base + 126), (base - 128, base + 127)]),
                     years=(base - 140, base + 140), p_month=.02 if sc == 'basic' else .3, jan1=0, noalign=0,
                     until_full=0 if sc == 'basic' else .6, n_era=(1, 8), n_rule=(1, 12))
            return Case('tiny%d' % i, layout(r, gen.gen_db(r, **p), .2), o, surfaces=('arduino', 'c', 'json'), localtime=True)
        out.append(attempt(rng, make))
    for i in range(30 * k):
        sc = rng.choice(['basic', 'extended', 'complete'])
        b = rng.choice([2000, 2050, 2100])
        d1, d2 = rng.choice([-129, -128, -127, -126, -125, 0]), rng.choice([124, 125, 126, 127, 128, 20])
        s = max(b + d1, 1980)
        out.append(Case('range%d' % i, gen.write(base_db(rng), rng), dict(scope=sc, start_year=s, until_year=max(s, b + d2), tiny_base_year=b, estimate=False,
                                                                          strict=False), surfaces=PY))
    for sc in ('basic', 'extended'):
        for d in (-128, -127, -126, -125, -124):        # the first year, then the last one
            b = rng.choice([2126, 2115, 2150])
            out.append(Case('edge%d%s' % (d, sc), gen.write(base_db(rng), rng), dict(scope=sc, start_year=b + d, until_year=b + d + 5, tiny_base_year=b, estimate=False,
                                                                                      strict=False), surfaces=PY))
        for d in (123, 124, 125, 126, 127, 128):
            b = rng.choice([2000, 1990, 2050])
            out.append(Case('edge%d%s' % (d, sc), gen.write(base_db(rng), rng), dict(scope=sc, start_year=b + d - 5, until_year=b + d, tiny_base_year=b, estimate=False,
                                                                                      strict=False), surfaces=PY))
    for i in range(10 * k):
        # base above the range: the start decides
        b = rng.choice([2126, 2127, 2128, 2125, 2124, 2107])
        out.append(Case('lowrange%d' % i, gen.write(base_db(rng), rng), dict(scope=rng.choice(['basic', 'extended']), start_year=rng.choice([1999, 2000, 2001, 1981]), until_year=2020,
                                                                             tiny_base_year=b, estimate=False, strict=False), surfaces=PY))
    return out


# ---------------------------------------------------------------- basic scope (P07)
def basic_scope(rng, tier):
    k = 1 if tier == 'quick' else 15
    out = []
    for i in range(260 * k):
        r = sub(rng)
        s, u = window(r, 'basic')
        o = dict(scope='basic', start_year=s, until_year=u, tiny_base_year=base_for(r, s, u), strict=r.random() < .7, estimate=False)
        p = dict(basic=r.random() < .6, window=(s, u), p_month=r.choice([0, 0, .05, .2]), jan1=r.choice([0, .1, 1]), noalign=0,
                 until_full=r.choice([0, .1, .5]), fixed=r.choice([0, .1, .4]), n_rule=(1, 6), fine=r.random() < .2,
                 finite=r.choice([0, 0, .2]), nopol=r.choice([0, 0, .1]))
        db = gen.gen_db(r, **p)
        if r.random() < .4:
            # one precise feature in an otherwise plain database
            n, rs = r.choice(list(db.rules.items()))
            x = r.choice(rs)
            f = r.random()
            if f < .35:
                y = dict(x, on=r.choice(['9', 'lastSun', '1']), save='0', letter='S')
                hi = x['to']
                if r.random() < .5 and hi not in ('only', 'max'):
                    y['frm'] = y['to'] = hi
                    y['to'] = 'only'
                rs.insert(r.randint(0, len(rs)), y)
            elif f < .6:
                x['mon'], x['on'] = 'Jan', r.choice(['1', '2', 'Sun>=1', 'Sun>=8', 'lastSun', 'Mon<=1', 'Sun>=2'])
            else:
                z = r.choice(list(db.zones.values()))
                e = z[r.randint(0, max(0, len(z) - 2))]
                if e['until']:
                    e['until'] = e['until'][:1] + r.choice([['Jan'], ['Jan', '1'], ['Jan', '1', '0:00'], ['Jan', '1', '0:00s'], ['Mar'], ['Jan', '2']])
                else:
                    e['rules'], e['format'] = r.choice(['1:00', '0:30', '-1:00']), 'XT'
        out.append(Case('basic%d' % i, layout(r, db, .2), o, surfaces=CHEAP))
    for c in out[:10]:
        c.surfaces = ALL
    out += real_sweep(rng, 8 * k, scopes=('basic',))
    out += real(2, surfaces=ALL, scopes=('basic',), start=rng.randint(0, 2))
    return out


# ---------------------------------------------------------------- era and rule selection (P02, P03, P10)
def selection(rng, tier, localtime=False, n=300):
    k = 1 if tier == 'quick' else 15
    out = []
    for i in range(n * k):
        def make(r, i=i):
            sc = r.choice(['basic', 'extended', 'complete', 'complete'])
            o = options(r, sc, None, .05, .1)
            s, u = o['start_year'], o['until_year']
            close = r.random() < .5
            p = dict(basic=sc == 'basic', window=(s, u), years=(max(2, s - 6), u + 6) if close else (max(2, s - 90), u + 60),
                     p_month=.02 if sc == 'basic' else .5, jan1=0 if sc == 'basic' else .2, noalign=0, until_full=0 if sc == 'basic' else .5,
                     n_era=(1, 9), n_rule=(1, 14), n_pol=(1, 4), std=r.choice([.2, .5, .8]), far=.05 if not o['estimate'] and r.random() < .2 else 0,
                     finite=r.choice([0, .1, .4]), nopol=r.choice([0, 0, 0, .1]) if sc == 'basic' else 0)
            return Case('sel%d' % i, layout(r, gen.gen_db(r, **p), .1), o, surfaces=CHEAP, localtime=localtime)
        out.append(attempt(rng, make) if i % 6 else make(sub(rng)))
    for c in out[:12 if tier == 'quick' else 80]:
        c.surfaces = ALL
    return out + real_sweep(rng, 8 * k, localtime=localtime) + real(2, start=rng.randint(0, 9), localtime=localtime)


def first_letters(rng, n):
    """Policies whose initial letter is a matter of months and days, with the
    standard-time rules inside or outside the range."""
    out = []
    for i in range(n):
        r = sub(rng)
        db = gen.Db()
        s = r.randint(1980, 2020)
        u = s + r.randint(2, 30)
        for j in range(r.randint(1, 4)):
            y0 = r.choice([s - 40, s - 3, s - 1, s, s + 1, u + 3])
            letters = r.sample(gen.LETTERS, 6)
            m = r.randint(2, 11)
            rs = []
            for q in range(r.randint(1, 4)):
                mm = r.choice([m, m, r.randint(2, 11)])
                hi = r.choice(['only', 'only', str(y0 + 1), str(y0 + 30)])
                rs.append(rule(frm=str(y0 + r.choice([0, 0, 0, 1])), to=hi if hi == 'only' or int(hi) > y0 + 1 else 'only', mon=gen.MONTHS[mm - 1],
                               on=r.choice(['1', '9', '15', '26', 'lastSun', 'lastWed', 'Sun>=1', 'Mon>=8', 'Sat<=20', 'Thu<=9', 'Fri>=26', 'Tue<=5']), save='0', letter=letters[q]))
            for q in range(r.randint(1, 3)):
                f = r.choice([y0 - 1, y0, y0 + 2, s - 5, s - 2, s, s + 1])
                t = r.choice(['only', 'max', 'max', str(max(f, s + 1))])
                rs.append(rule(frm=str(f), to=t, mon=gen.MONTHS[r.randint(2, 11) - 1], on=r.choice(['9', 'lastSun', 'Sun>=8']), save=r.choice(['1:00', '0:30', '-1:00']), letter=letters[4]))
            if r.random() < .2:
                # far apart: a rule already old, a letter no longer kept
                y1 = s - r.randint(55, 90)
                rs = [rule(frm=str(y1), to='max', mon='Apr', on='9', save='1:00', letter=letters[0]), rule(frm=str(y1 + 3), to=str(y1 + 6), mon='Sep', on='9', letter=letters[1]),
                      rule(frm=str(y1 + 8), to=str(s - r.choice([2, 2, 3])), mon='Nov', on='9', letter=letters[2]), rule(frm=str(s + r.choice([-1, 0, 1])), to='max', mon='Oct', on='9', letter=letters[3])]
                if r.random() < .7:
                    rs[2] = rule(frm=str(s - r.choice([2, 3, 9])), to='only', mon='Nov', on='9', save='0:30', letter=letters[2])
                else:
                    del rs[r.choice([1, 2, 2, 3])]
                rs.sort(key=lambda x: r.random() if q % 2 else int(x['frm']))
                db.rules['P%d' % j] = rs
                db.zones['L/Z%d' % j] = [simple_era(rules='P%d' % j, format='A%sT')]
                continue
            r.shuffle(rs)
            db.rules['P%d' % j] = rs
            db.zones['L/Z%d' % j] = [simple_era(rules='P%d' % j, format='A%sT')]
        out.append(Case('first%d' % i, gen.write(db, r), dict(scope=r.choice(['basic', 'extended', 'complete']), start_year=s, until_year=u, tiny_base_year=2000, estimate=False),
                        surfaces=CHEAP))
    return out


def prior_ties(rng, n):
    """Several rules share the latest month before the range, or the range
    begins or ends right there."""
    out = []
    for i in range(n):
        r = sub(rng)
        db = gen.Db()
        sc = r.choice(['extended', 'complete'])
        s = r.randint(1980, 2020)
        u = s + r.choice([0, 1, 5, 20])
        for j in range(r.randint(1, 4)):
            y = s + r.choice([-2, -2, -2, -1, -3, -10])
            m = r.choice([1, 3, 6, 10, 12])
            rs = []
            for q in range(r.randint(1, 4)):
                frm = r.choice([y, y, y - 1, y - 7])
                rs.append(rule(frm=str(frm), to='only' if frm == y else str(y), mon=gen.MONTHS[(m if r.random() < .8 else m % 12 + 1) - 1], on=r.choice(['2', '9', 'lastSun', 'Sun>=8', '23']),
                               at=r.choice(['0', '2:00', '24:00']), save=r.choice(['0', '0', '1:00', '1:00', '0:30']), letter=r.choice(gen.LETTERS)))
            for q in range(r.randint(0, 3)):
                f = r.choice([s - 20, s - 1, s, u - 1, u, u + 1, u + 2])
                rs.append(rule(frm=str(f), to=r.choice(['only', 'only', 'max', str(max(f, s))]), mon=gen.MONTHS[r.randint(1, 11)], on='5', save=r.choice(['0', '1:00']), letter=r.choice(gen.LETTERS)))
            r.shuffle(rs)
            db.rules['P%d' % j] = rs
            db.zones['T/Z%d' % j] = [simple_era(rules='P%d' % j, format='A%sT')]
        out.append(Case('ties%d' % i, gen.write(db, r), dict(scope=sc, start_year=s, until_year=u, tiny_base_year=2050, estimate=False), surfaces=CHEAP))
    return out


def eras_nonincreasing(rng, n):
    """Zones whose ends do not increase, by year, month, day or time."""
    out = []
    for i in range(n):
        r = sub(rng)
        db = base_db(r, n_link=(0, 1))
        s = r.choice([1980, 2000])
        y = r.randint(s, s + 40)
        m = r.randint(1, 12)
        d = r.randint(1, 28)
        t = r.randint(0, 24)
        a = [str(y), gen.MONTHS[m - 1], str(d), '%d:00' % t]
        b = list(a)
        j = r.randint(0, 5)
        if j == 0:
            b[0] = str(y + r.choice([-1, 0, 1]))
        elif j == 1:
            b[1] = gen.MONTHS[(m - 1 + r.choice([-1, 0, 1])) % 12]
        elif j == 2:
            b[2] = str(max(1, d + r.choice([-1, 0, 1])))
        elif j == 3:
            b[3] = '%d:00' % max(0, t + r.choice([-1, 0, 1]))
        db.zones['Seq/Zone%d' % i] = [simple_era(until=a), simple_era(off='2:00', until=b), simple_era(off='3:00')]
        if j == 5:      # the same line again
            db.zones['Seq/Zone%d' % i][1:1] = [simple_era(off='2:00', until=b)] * r.choice([1, 1, 2])
            db.zones['Seq/Zone%d' % i][0]['until'] = [str(y - 1)]
        out.append(Case('seq%d' % i, gen.write(db, r), dict(scope=r.choice(['basic', 'extended', 'complete']), start_year=s, until_year=s + 50, tiny_base_year=2050,
                                                            estimate=False), surfaces=CHEAP))
    return out


# ---------------------------------------------------------------- days (P22)
def days(rng, tier):
    """Every (month, expression) as a rule day and as an end of era."""
    k = 1 if tier == 'quick' else 6
    exprs = [str(d) for d in range(1, 32)] + ['last' + w for w in gen.DAYS]
    exprs += ['%s%s%d' % (w, op, d) for w in gen.DAYS for op in ('>=', '<=') for d in range(1, 32)]
    bad = ['0', '32', '99', 'lastfoo', 'last', 'Sun', 'Sun>=', 'Sun>=0', 'Sun<=0', 'Sun>=32', 'Fri<=32', 'sun>=1', 'Sunday>=1', 'Sun>1', 'Sun=1', 'lastSunday', '-1', '1a', 'x',
           'Sun>=1x', 'Sun=>1', '>=1', 'Sun>=-1', 'lastsun', '+1']
    out = []
    combos = [(m, e) for m in range(1, 13) for e in exprs + bad]
    rng.shuffle(combos)
    # those around a year end are tried in every scope
    border = [(m, w + op + str(d)) for m, op, ds in ((12, '>=', range(23, 32)), (1, '<=', range(1, 10))) for w in gen.DAYS for d in ds]
    rng.shuffle(border)
    pad = -len(combos) % 120
    combos += [rng.choice(combos) for _ in range(pad)]
    for i in range(0, len(border), 40):
        some = border[i:i + 40]
        combos += [(5, '9')] * 80 + some + [(5, '9')] * (40 - len(some))
    per = 40
    for i in range(0, len(combos), per):
        r = sub(rng)
        valid_only = (i // per) % 3
        db = gen.Db()
        sc = 'basic' if valid_only == 2 else r.choice(['extended', 'complete'])
        db.zones['Plain/Zone'] = [simple_era()]
        for j, (m, e) in enumerate(combos[i:i + per]):
            good = model.day_expr(e) is not None
            y = r.randint(1990, 2040)
            dd = model.day_expr(e)
            if sc != 'basic' and (not good or gen.until_key([str(y), gen.MONTHS[m - 1], e]) is None or abs(dd[1]) > gen.MLEN[m - 1] or
                                  (dd[0] and m == 1 and -6 <= dd[1] < 0) or (dd[0] and m == 12 and dd[1] >= 26)):
                continue      # would fail the whole run: tried in the basic scope and by the fault workload
            if sc != 'basic':
                db.zones['E/Z%d' % j] = [simple_era(until=[str(y), gen.MONTHS[m - 1], e]), simple_era(off='2:00')]
            if dd and abs(dd[1]) > gen.MLEN[m - 1]:
                continue
            db.rules['P%d' % j] = [rule(mon='Jul' if m != 7 else 'Aug', on='15', frm='1970'), rule(frm='1980', mon=gen.MONTHS[m - 1], on=e, save='1:00', letter='D')]
            db.zones['R/Z%d' % j] = [simple_era(rules='P%d' % j, format='A%sT')]
        o = dict(scope=sc, start_year=1985, until_year=2045, tiny_base_year=2050, estimate=False)
        out.append(Case('days%d' % i, gen.write(db, r), o, surfaces=CHEAP))
    for c in out[:4]:
        c.surfaces = ALL
    for i in range(40 * k):
        out.append(fault_case(sub(rng), 'baddays', rng.choice(['basic', 'extended', 'complete'])))
    out += defects(rng, tier, n=6, names=DAY_DEFECTS)
    out += real_sweep(rng, 4 * k)
    return out


# ---------------------------------------------------------------- ends of eras and rule days at the edges (P01)
def month_order():
    """The known finding: the latest rule before the range, in month order, is not the latest one."""
    db = gen.Db()
    db.rules['P'] = [rule(frm='2095', to='only', mon='Jul', on='Tue>=28', at='24:59', suf='s', letter='S'),
                     rule(frm='2095', to='only', mon='Aug', on='Mon<=6', at='23:00', suf='s', save='0:30', letter='D')]
    db.zones['Month/Order'] = [simple_era(rules='P', format='X%sT')]
    db.zones['Other/Zone'] = [simple_era()]
    return [Case('month-order', gen.write(db, random.Random(1)), dict(scope='complete', start_year=2103, until_year=2120, tiny_base_year=2081, estimate=False), surfaces=PY, localtime=True)]


EDGE_DAYS = [('Feb', '28'), ('Feb', '29'), ('Feb', 'lastSun'), ('Feb', 'Sun>=23'), ('Feb', 'Sat<=28'), ('Mar', '1'), ('Dec', '31'), ('Jan', '1'), ('Dec', 'lastFri'), ('Jan', 'Sun>=1'),
             ('Apr', '30'), ('Jun', '30'), ('Jul', '31'), ('Aug', '1'), ('Sep', '30'), ('Oct', 'Sun>=29'), ('Mar', 'Thu<=2'), ('Apr', 'Fri>=28'), ('Nov', 'Mon<=3'),
             ('May', 'lastSun'), ('Nov', 'last' + 'Sat'), ('Oct', 'Sun<=31'), ('Mar', 'Sun>=25'), ('Jun', 'Wed>=27'),
             ('Jan', '31'), ('Mar', '31'), ('May', '31'), ('Oct', '31'), ('Nov', '30')]
EDGE_TIMES = ['0:00', '24:00', '24:00', '24:00', '0:00', '23:59', '0:01', '25:00', '24:30', '2:00', '12:00', '23:00', '1:00']


def edge_times(rng, n, surfaces=PY, localtime=True, zones=14):
    """Eras which end, and rules which fire, on the edges of months, years and
    days, in leap, common and century years."""
    out = []
    for i in range(n):
        r = sub(rng)
        sc = r.choice(['extended', 'complete', 'complete'])
        s = r.choice([1974, 1985, 1996, 2000, 2049]) if sc == 'extended' else r.choice([1890, 1899, 1960, 1996, 2000, 2095])
        db = gen.Db()
        fine = r.random() < .4

        def t():
            x = r.choice(EDGE_TIMES)
            return x if not fine or x == '25:00' or r.random() < .5 else '%s:%02d' % (x, r.choice([1, 30, 59]))
        for j in range(zones):
            # every rule of a policy in a different month
            some = {}
            for m, d in r.sample(EDGE_DAYS, 5):
                some.setdefault(m, d)
            p = 'E%d' % j
            db.rules[p] = [rule(frm=str(s - 8), to=r.choice(['max', str(s + 6)]), mon=m, on=d, at=t(), suf=r.choice(['', 'w', 's', 'u']),
                                save='0' if x % 2 else r.choice(['1:00', '1:00', '0:30', '2:00', '0:20', '-1:00', '1:30']), letter='DS'[x % 2]) for x, (m, d) in enumerate(some.items())]
            if all(ru['save'] != '0' for ru in db.rules[p]):
                db.rules[p].append(rule(frm=str(s - 8), mon='Aug', on='9', at='3:00', letter='S'))
            es, y = [], s - 1
            while len(es) < 6:
                m, d = r.choice(EDGE_DAYS)
                if d == '29' and not (y % 4 == 0 and (y % 100 or y % 400 == 0)):
                    d = '28'
                e = simple_era(off=r.choice(['1:00', '-1:00', '0', '13:00', '-11:30', '5:45', '-3:30']), until=[str(y), m, d, t() + r.choice(['', '', 'w', 's', 'u'])])
                k = r.randint(0, 3)
                if k:
                    e.update(rules=p, format=r.choice(['E%sT', 'ST/DT', 'E%s']))
                elif r.random() < .3:
                    e.update(rules=r.choice(['1:00', '0:30']), format='XDT')
                es.append(e)
                y += r.choice([1, 1, 1, 2, 3])
            db.zones['Edge/Z%d' % j] = es + [simple_era(rules=p, format='L%sT')]
        out.append(Case('edge%d' % i, gen.write(db, r), dict(scope=sc, start_year=s, until_year=s + 16, tiny_base_year=s + 8, estimate=False, strict=False,
                                                             granularity=1 if fine else r.choice([1, 60])), surfaces=surfaces, localtime=localtime))
    return out


# ---------------------------------------------------------------- buffer sizes (P21)
def buffers(rng, tier):
    k = 1 if tier == 'quick' else 12
    out = []
    for i in range(120 * k):
        def make(r, i=i):
            c = general(r, 'buf%d' % i, surfaces=('json',), valid=False, noalign=0, gran=0)
            c.opts['estimate'] = True
            c.env = {'VT_BUF_MOD': r.choice(['8', '8', '8', '6', '9', '12', '40'])}
            if r.random() < .3:
                c.opts['ignore_buf'] = True
            if c.opts['scope'] == 'complete' and r.random() < .2:
                c.opts['until_year'] = r.choice([10000, 3000])
            return c
        out.append(attempt(rng, make))
    for c in out[:12]:
        c.surfaces = ALL
    for i in range(16 * k):
        # eras which end within the minute of a transition
        r = sub(rng)
        sc = r.choice(['extended', 'extended', 'complete', 'basic'])
        s = 2000
        db = base_db(r)
        mm = [r.choice(['2:00:30', '2:00:59', '2:00', '2:00:01']) for _ in range(4)]
        db.rules['Cut'] = [rule(frm='1990', mon='Mar', on='lastSun', at=mm[0], save='1:00', letter='D'), rule(frm='1990', mon='Oct', on='lastSun', at=mm[1], letter='S')]
        es = [simple_era(rules='Cut', format='C%sT', until=[str(y)] if sc == 'basic' else [str(y), m, 'lastSun', r.choice(mm) + r.choice(['', 's', 'u'])])
              for y in range(2001, 2001 + r.randint(1, 6)) for m in ('Mar', 'Oct')[:1 if sc == 'basic' else r.choice([1, 2])]]
        for n, e in enumerate(es):
            if n % 2:
                e.update(off=r.choice(['1:00', '1:00:30', '2:00:59']), rules=r.choice(['Cut', 'Cut', '-']))
                e['format'] = 'C%sT' if e['rules'] == 'Cut' else 'CET'
        db.zones['Cut/Zone'] = es + [simple_era(rules='Cut', format='D%sT')]
        out.append(Case('cut%d' % i, gen.write(db, r), dict(scope=sc, start_year=s, until_year=2010, tiny_base_year=2050, estimate=True, strict=False,
                                                            granularity=r.choice([60, 60, 300, 900, 1])), surfaces=('json',), env={'VT_BUF_MOD': '8'}))
    for i in range(12 * k):
        c = general(rng, 'nobuf%d' % i, estimate=0, surfaces=ALL if i < 3 else CHEAP)
        c.opts['estimate'] = False
        out.append(c)
    out += real(2, estimate=True) + [Case('real-buf%d' % i, rng.choice(['main', 'rearguard']), dict(scope='complete', start_year=rng.choice([1900, 1970, 2000]),
                                     until_year=rng.choice([1990, 2050, 10000]), estimate=True, ignore_buf=i % 2 == 0), surfaces=('json',),
                                     env={'VT_BUF_MOD': rng.choice(['8', '20', '9'])}) for i in range(6 * k)]
    return out


# ---------------------------------------------------------------- names, letters, formats (P18)
def odd_names(rng, n, surfaces=ALL):
    out = []
    # nested and look-alike components, counts on both sides of the threshold
    for i in range(n):
        r = sub(rng)
        db = gen.Db()
        for c in [r.choice(['Q' * r.randint(3, 40), 'Long_' * r.randint(4, 12)])] + r.sample(['Abc', 'Abcd', 'Abcde', 'Ab', 'A', 'abc', 'Abc-d', 'A_b', 'America', 'Amer', 'Indiana', 'X1', 'Long_' + 'component' * r.randint(3, 9),
                           'x' * r.randint(29, 66), '+1+', 'a.b', '-'], r.randint(2, 7)):
            for j in range(r.choice([1, 2, 3, 3, 4, 5, 9])):
                name = c + '/' + r.choice(['', 'Indiana/', 'Abc/', 'Abcd/', c + '/']) + 'C%d%s' % (j, r.choice(['', 'x', '-y']))
                if model.symbol(name) not in {model.symbol(x) for x in list(db.zones) + list(db.links)}:
                    if db.zones and r.random() < .3:
                        db.links[name] = r.choice(list(db.zones))
                    else:
                        db.zones[name] = [simple_era()]
        out.append(Case('frag%d' % i, gen.write(db, r), dict(scope=r.choice(['basic', 'extended', 'complete']), compress=r.random() < .85, estimate=False), surfaces=surfaces))
    return out


def tables(rng, tier):
    k = 1 if tier == 'quick' else 10
    out = []
    for i in range(26 * k):
        def make(r, i=i):
            o = options(r, r.choice(['extended', 'complete', 'basic']), False, 0, 0)
            o['compress'] = r.random() < .8
            p = dict(basic=o['scope'] == 'basic', window=(o['start_year'], o['until_year']), p_month=0, jan1=0, noalign=0, until_full=0,
                     n_zone=(1, r.choice([8, 40, 90])), n_link=(0, r.choice([5, 40])), n_pol=(1, 6), pct_z=.2)
            return Case('tab%d' % i, layout(r, gen.gen_db(r, **p), .2), o, surfaces=ALL)
        out.append(attempt(rng, make))
    out += odd_names(rng, 20 * k)
    lim = [c for c in limits(rng, tier) if c.name.split('-')[0].rstrip('0123456789') in ('frag', 'letters', 'goletters')]
    return out + lim + real(2, start=rng.randint(0, 9))


def bare(rng, n, surfaces=ALL):
    """Databases in which a whole table is empty: no policies, no links, one zone, no zones at all."""
    out = []
    for i in range(n):
        r = sub(rng)
        o = options(r, estimate=.6)
        kind = ['zones', 'policies', 'links', 'list', 'all'][i % 5]
        p = dict(window=(o['start_year'], o['until_year']), basic=kind != 'zones' and o['scope'] == 'basic', p_month=0, jan1=0, noalign=0, finite=0)
        if kind == 'zones':         # everything dropped
            o.update(options(r, 'basic', estimate=.6))
            p.update(window=(o['start_year'], o['until_year']), n_zone=(1, 3))
        elif kind == 'policies':
            p.update(n_pol=(0, 0), n_zone=(1, 3))
        elif kind == 'links':
            p.update(n_link=(0, 0), n_zone=(1, 2))
        db = gen.gen_db(r, **p)
        if kind == 'zones':
            for es in db.zones.values():
                e = es[-1]
                e['rules'], e['format'] = r.choice(['1:00', '0:30', '2:00']), 'XT'
        if kind == 'all':
            db = gen.Db()
        c = Case('bare-%s%d' % (kind, i), gen.write(db, r), o, surfaces=surfaces)
        if kind == 'list':
            zs = list(db.zones)
            c.include = r.choice([['No/Such_Zone'], [r.choice(zs)], [r.choice(zs)], ['# none', 'Nowhere']])
        out.append(c)
    return out


def many_notes(rng, n, surfaces=CHEAP):
    """One policy and one zone with many different reasons each."""
    out = []
    for i in range(n):
        r = sub(rng)
        o = options(r, r.choice(['extended', 'complete', 'basic']), gran=.4, estimate=.1)
        basic = o['scope'] == 'basic'
        o['strict'] = r.random() < (.5 if basic else .1)
        s = o['start_year']
        o['until_year'] = u = min(s + 40, o.get('tiny_base_year', 2100) + 120 if o['scope'] != 'complete' else s + 40)
        db = gen.Db()
        t = lambda: '%d:%02d' % (r.randint(0, 3), r.randint(0, 59)) + r.choice(['', '', ':%02d' % r.randint(0, 59)])
        k = max(1, min(r.randint(2, 30), u - s))
        db.rules['Many'] = [rule(frm=str(s + j), to='only', mon=gen.MONTHS[3 + j % 2], at=t(), save=r.choice(['1:00', '0', '2:%02d' % r.randint(0, 44), '0:%02d' % r.randint(1, 40)])) for j in range(k)]
        db.rules['Many'].append(rule(frm=str(s), to='max', mon='Oct', save='0', letter='-'))
        m = max(1, min(r.randint(2, 30), u - s))
        db.zones['A/Many'] = [simple_era(off=r.choice(['', '-']) + t(), rules=r.choice(['-', '-', 'Many'] + ['0:%02d' % r.randint(1, 50)] * (not basic)), format='X',
                                         until=[str(s + j)] + ([] if basic else [gen.MONTHS[j % 12], '3', t()])) for j in range(m)] + [simple_era()]
        db.zones['A/User'] = [simple_era(rules='Many', format='Y')]
        out.append(Case('many%d' % i, gen.write(db, r), o, surfaces=surfaces))
    return out


def python_profile(rng, i):
    return general(rng, 'p%d' % i)


# ---------------------------------------------------------------- per property
def cases(pid, rng, tier):
    q = tier == 'quick'
    k = 1 if q else 12
    if pid == 'P01':
        return month_order() + edge_times(rng, 3 * min(k, 6), ALL) + edge_times(rng, 24 * k) + \
            mixed(rng, tier, n_all=40, n_cheap=500, n_real=3, n_sweep=14, localtime=True, cheap=PY)
    if pid == 'P02':
        return selection(rng, tier) + eras_nonincreasing(rng, 60 * k) + defects(rng, tier, n=1)
    if pid in ('P03', 'P10'):
        return selection(rng, tier) + prior_ties(rng, 120 * k) + defects(rng, tier, n=1)
    if pid == 'P04':
        out = selection(rng, tier, n=160)
        for i in range(120 * k):
            out.append(general(rng, 'anc%d' % i, surfaces=CHEAP, n_rule=(1, 5), std=rng.choice([0, .1, .3, .9]), valid=i % 4 != 0))
        return out + first_letters(rng, 100 * k)
    if pid == 'P05':
        out = [general(rng, 'lay%d' % i, surfaces=CHEAP, hostile=1, valid=i % 4 != 0) for i in range(320 * k)]
        out += [general(rng, 'layall%d' % i, hostile=1) for i in range(8)]
        return out + real(2, start=rng.randint(0, 9))
    if pid == 'P06':
        return bare(rng, 20 * k, CHEAP) + mixed(rng, tier, n_all=14, n_cheap=240, n_real=2, n_sweep=8) + includes(rng, tier)[:30 * k] + \
            [fault_case(sub(rng), f, sc) for f in ('loss-zone', 'baddays') for sc in ('basic', 'extended', 'complete') for _ in range(4 * k)] + defects(rng, tier)
    if pid == 'P07':
        return bare(rng, 10 * k, CHEAP) + basic_scope(rng, tier) + defects(rng, tier, scopes=('basic',), n=5)
    if pid == 'P08':
        return bare(rng, 20 * k, CHEAP) + faults(rng, tier) + defects(rng, tier, n=3) + mixed(rng, tier, n_all=4, n_cheap=60, n_real=1, n_sweep=2)
    if pid == 'P09':
        out = mixed(rng, tier, n_all=20, n_cheap=80, n_real=3, n_sweep=2)
        for i in range(10 * k):
            out.append(fault_case(sub(rng), rng.choice(['hash', 'zero-id']), rng.choice(['basic', 'extended', 'complete'])))
        return out
    if pid == 'P11':
        return many_notes(rng, 30 * k) + granularity(rng, tier) + defects(rng, tier, n=2)
    if pid == 'P12':
        return tiny(rng, tier) + real(2, scopes=('basic', 'extended'), surfaces=('arduino', 'c'), start=rng.randint(0, 5))
    if pid in ('P13', 'P14', 'P15', 'P16'):
        lang = {'P13': 'arduino', 'P14': 'c', 'P15': 'go', 'P16': 'python'}[pid]
        out = real(5 if q else 10, start=rng.randint(0, 9), surfaces=(lang,))
        n = {'python': 700, 'go': 70}.get(lang, 260)
        for i in range(n * k):
            c = general(rng, 'g%d' % i, surfaces=(lang,), noalign=rng.choice([0, 0, .05]), strict=rng.choice([None, False]))
            if rng.random() < .5:
                c.opts['db_namespace'] = rng.choice(['zonedb', 'zonedbx', 'Abc', 'zdb2', 'xtd'])
            out.append(c)
        lim = [c for c in limits(rng, tier) if lang in c.surfaces]
        out += defects(rng, tier, n=1, surfaces=(lang,)) if lang != 'go' else []
        out += odd_names(rng, (3 if lang == 'go' else 12) * k, surfaces=(lang,))
        out += bare(rng, (5 if lang == 'go' else 15) * k, surfaces=(lang,))
        return out + (rng.sample(lim, min(len(lim), 40)) if q else lim)
    if pid == 'P17':
        sv = ('json', 'zonelist', 'python')
        out = [general(rng, 'j%d' % i, surfaces=sv) for i in range(200 * k)] + [general(rng, 'ja%d' % i) for i in range(8 * min(k, 6))]
        for c in out:
            if rng.random() < .3:
                c.opts['json_file'] = rng.choice(['a.json', 'zones.json', 'x-y_z.JSON', 'data', 'sub/zonedb.json', 'a b/c.d/z'])
            if rng.random() < .3:
                c.opts['tz_version'] = rng.choice(['2020a', '1999z', '2024b', 'main', '2025b-rearguard', '2031f'])
        return bare(rng, 15 * k, sv) + out + real(3, start=rng.randint(0, 9)) + includes(rng, tier)[:20]
    if pid == 'P18':
        return tables(rng, tier)
    if pid == 'P20':
        return bare(rng, 20 * k, CHEAP) + includes(rng, tier)
    if pid == 'P21':
        return bare(rng, 20 * k, ('python', 'json', 'arduino')) + buffers(rng, tier)
    if pid == 'P22':
        return days(rng, tier)
    if pid == 'P23':
        return [gran_case(rng, 't%d' % i) for i in range(120 * k)] + \
            defects(rng, tier, n=1, names=[n for n in list(ZONE_DEFECTS) + list(RULE_DEFECTS) if n.split('-')[0] in ('off', 'fixed', 'at', 'save', 'until')])
    if pid == 'P24':
        return [general(rng, 'w%d' % i, surfaces=('go',)) for i in range(14 * k)] + real(2, start=rng.randint(0, 9), surfaces=('go',))
    if pid == 'P25':
        return mixed(rng, tier, n_all=24, n_cheap=160, n_real=3, n_sweep=6) + granularity(rng, tier)[:80 * k] + basic_scope(rng, tier)[:60 * k] + \
            includes(rng, tier)[:20 * k] + defects(rng, tier) + many_notes(rng, 30 * k) + many_notes(rng, 4 * k, ALL)
    if pid == 'P26':
        out = mixed(rng, tier, n_all=30, n_cheap=80, n_real=4, n_sweep=4) + bare(rng, 5 * k)
        for c in out:
            if rng.random() < .4:
                c.opts['tz_version'] = rng.choice(['2020a', '2024b', 'main', '2025b-x', '12345'])
        return out
    if pid == 'P27':
        out = real(3, start=rng.randint(0, 9))
        out += [general(rng, 'l%d' % i, n_link=(3, 14), n_zone=(2, 8)) for i in range(24 * k)]
        out += [general(rng, 'lc%d' % i, surfaces=CHEAP, n_link=(3, 14), n_zone=(2, 8), valid=i % 4 != 0) for i in range(100 * k)]
        for n in (64, 65, 128, 200, 255) if q else range(20, 256, 9):
            db = gen.Db()
            for z in 'ab':
                db.zones['Many/' + z] = [simple_era(off='%d:00' % ((i + (z == 'b')) % 12), until=['%d' % (2000 + i // 12), gen.MONTHS[i % 12], '3']) for i in range(n - 1)] + [simple_era()]
                db.links['To/' + z] = db.links['Z' + z] = 'Many/' + z
            out.append(Case('many%d' % n, gen.write(db, rng), dict(scope=rng.choice(['extended', 'complete']), start_year=2000, until_year=2060, estimate=False)))
        return out
    if pid == 'P30':
        out = []
        for i in range(16 * k):
            c = general(rng, 'o%d' % i, gran=.6, strict=rng.choice([None, False]), noalign=rng.choice([0, .05]))
            o = c.opts
            o['db_namespace'] = rng.choice(['zonedb', 'zonedbx', 'Abc', 'zdb2', 'xtd', 'z_9'])
            o['tz_version'] = rng.choice(['2020a', '2024b', '2031f'])
            o['json_file'] = rng.choice(['a.json', 'zones.json', 'x-y_z.JSON', 'data', 'sub/zonedb.json', 'a b/c.d/z'])
            if i % 2:
                for g in ('until_at_granularity', 'offset_granularity', 'delta_granularity'):
                    if rng.random() < .4:
                        o[g] = rng.choice([60, 900, 1800])
            if o['scope'] == 'complete' and rng.random() < .6:
                o['tiny_base_year'] = rng.choice([0, 0, 1, 1970, 12345, 32767, rng.randint(0, 9999)])
            for d in ('start_year', 'until_year', 'tiny_base_year', 'strict', 'compress'):
                if rng.random() < .3:
                    o.pop(d, None)
            if o.get('start_year', 2000) > o.get('until_year', 2100):
                o.pop('start_year', None), o.pop('until_year', None)
            out.append(c)
        for i in range(8 * k):
            # values that a test for truth takes for a missing one, and single values that differ from the default
            c = general(rng, 'z%d' % i, scope='complete', strict=False, surfaces=ALL if i < 2 else CHEAP)
            o = c.opts
            o.update(start_year=2000, until_year=2100, tiny_base_year=2100, compress=True, estimate=False)
            o.update([dict(tiny_base_year=0), dict(tiny_base_year=0), dict(start_year=1, until_year=1), dict(until_year=2000), dict(tiny_base_year=1),
                      dict(strict=True), dict(compress=False), dict(until_at_granularity=rng.choice([60, 900]))][i % 8])
            out.append(c)
        return out
    if pid == 'P28':
        lim = limits(rng, tier)
        return lim
    return []
