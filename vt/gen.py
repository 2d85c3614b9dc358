"""Seeded generator of hostile TZ sources.  A source is kept as plain fields
(`Db`) so that the same database can be written in many layouts."""
import random

from . import model

MONTHS = 'Jan Feb Mar Apr May Jun Jul Aug Sep Oct Nov Dec'.split()
FULL = ('January February March April May June July August September October November December').split()
DAYS = 'Mon Tue Wed Thu Fri Sat Sun'.split()
MLEN = [31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31]
AREAS = ['Africa', 'America', 'America/Argentina', 'America/Indiana', 'Antarctica', 'Asia', 'Atlantic', 'Australia',
         'Etc', 'Europe', 'Indian', 'Pacific', 'Brazil', 'US', 'A', 'Abc', 'Abcd', 'A_B-C', 'Mexico', 'Deep/Er/Still', 'Deep/Er/America/Still']
CITY = ['Abidjan', 'Bogota', 'Cafe', 'DumontDUrville', 'East-Indiana', 'Fort_Nelson', 'GMT', 'GMT+0', 'GMT-0', 'GMT+12',
        'GMT-14', 'GMT0', 'Port-au-Prince', 'Knox_IN', 'NZ-CHAT', 'Ust-Nera', '0Zero', '9Nine', 'a', 'Z', 'deadbeef',
        'E', 'Very_Long_City_Name_With_Many_Parts', 'St_Johns', 'UTC', 'Zulu', 'CST6CDT', 'W-SU', 'B+C', 'x_y', 'St.Denis', 'a.b-c', 'gmt', 'abidjan', 'Egypt', 'EU', '_u', 'N.+-_9', 'a+b+c', 'GMT+1+', 'x_', 'Ab__']
POLS = ['US', 'EU', 'E', 'C-Eur', 'W-Eur', 'LH', 'SA', 'u', 'n', 'NT_YK', 'Ab-c', 'Zz', 'Mongol', 'k', 'K', 'EUAsia', 'E-Eur', 'Old.P+x',
        'a.b', 'Egypt', 'eu', 'X+1', '_p', 'US.']
LETTERS = ['S', 'D', '-', 'CAT', 'WAT', 'M', 'AB', '+00', '-01', 'P', 'W', 'LONGLET', 's', 'd', '+', 'A+', '0', '.', '-x']


ALNUM = 'ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789'


def word(rng, lo, hi, more='', start=ALNUM):
    return rng.choice(start) + ''.join(rng.choice(ALNUM + more * 6) for _ in range(rng.randint(lo, hi) - 1))


class Db:
    """rules: {policy: [dict]}, zones: {name: [dict]}, links: {name: target}"""
    def __init__(self):
        self.rules, self.zones, self.links = {}, {}, {}

    def copy(self):
        d = Db()
        d.rules = {k: [dict(r) for r in v] for k, v in self.rules.items()}
        d.zones = {k: [dict(e) for e in v] for k, v in self.zones.items()}
        d.links = dict(self.links)
        return d


def hms(rng, s):
    """A spelling of s seconds."""
    neg = s < 0
    a = abs(s)
    h, m, x = a // 3600, a % 3600 // 60, a % 60
    if x or rng.random() < .05:
        t = '%d:%02d:%02d' % (h, m, x)
    elif m or rng.random() < .6:
        t = '%d:%02d' % (h, m)
    else:
        t = '%d' % h
    if rng.random() < .1:
        t = '0' + t if h < 10 else t
    return '-' + t if neg else t


def day(rng, m, edge=False):
    """An ON/UNTIL day expression which exists in every year."""
    k = rng.random()
    n = MLEN[m - 1]
    if k < .35:
        return str(rng.choice([1, 2, 5, 15, 28, n, rng.randint(1, n)]))
    if k < .6:
        return 'last' + rng.choice(DAYS)
    if k < .85:
        d = rng.choice([1, 8, 15, 22, 25, rng.randint(1, n)] + ([n, n - 1, n - 3] if edge else []))
        if m == 12:
            d = min(d, 25)
        return '%s>=%d' % (rng.choice(DAYS), d)
    d = rng.choice([7, 14, 21, 30, 31, rng.randint(1, n)] + ([1, 2, 6] if edge else []))
    d = min(d, n)
    if m == 1:
        d = max(d, 7)
    return '%s<=%d' % (rng.choice(DAYS), d)


PROFILE = dict(basic=False, fine=False, fixed=.2, until_full=.6, p_month=.1, jan1=.0, years=(1850, 2095), window=(2000, 2100),
               bad=0.0, p_pol=.7, n_pol=(1, 5), n_rule=(1, 9), n_zone=(1, 8), n_era=(1, 6), n_link=(0, 5), gran=None,
               std=.5, big=0.0, noalign=0.0, pct_z=.08, far=0.0, finite=0.0, nopol=0.0)


def pick_year(rng, p):
    lo, hi = p['years']
    s, u = p['window']
    k = rng.random()
    if p['far'] and rng.random() < p['far']:
        return rng.choice([1, 2, 57, 999, 1582, 1700, 2127, 2128, 2300, 3000, 9999])
    if k < .35:
        y = s + rng.randint(-4, 4)
    elif k < .6:
        y = u + rng.randint(-4, 4)
    elif k < .8 and u > s:
        y = rng.randint(s, u)
    else:
        y = rng.randint(lo, hi)
    return max(lo, min(hi, y))


def pick_at(rng, p, lim=25 * 3600):
    g = 60
    if p['noalign'] and rng.random() < p['noalign']:
        g = 1
    k = rng.random()
    if k < .5:
        return rng.choice([0, 1, 2, 3, 12, 22, 23, 24]) * 3600
    if k < .6:
        return rng.choice([lim, 24 * 3600 + 60, 60, 900, 14 * 60, 16 * 60, 25 * 3600 - 60])
    if k < .8:
        return rng.randint(0, 24 * 4) * 900
    return rng.randint(0, lim // g) * g


def pick_save(rng, p):
    if rng.random() < p['std']:
        return 0
    if p['noalign'] and rng.random() < p['noalign']:
        return rng.choice([-1200, 1200, 1800 + 600, 3600 + 1, 4, 7199])
    if p['fine']:
        return rng.choice([3600] * 4 + [1200, 600, 1800, 7200, -3600, 60, 7620, 5400, 2400])
    return rng.choice([3600] * 6 + [1800, 7200, -3600, 900, 5400, 9900, -1800, 2700])


def pick_off(rng, p):
    if p['noalign'] and rng.random() < p['noalign']:
        return rng.choice([-1, 1]) * rng.randint(0, 15 * 3600)
    if p['fine'] and rng.random() < .5:
        return rng.choice([-1, 1]) * rng.randint(0, 15 * 3600)
    k = rng.random()
    if k < .5:
        return rng.randint(-12, 14) * 3600
    if k < .8:
        return rng.randint(-60, 60) * 900
    if k < .83:
        return rng.choice([-114300, 114300]) if p['big'] else rng.choice([-57600, 57600])
    return rng.randint(-16 * 60, 16 * 60) * 60


def suffix(rng, basic=False, until=False):
    if until and basic:
        return rng.choice(['', 'w'])
    return rng.choice(['', '', 'w', 's', 's', 'u'])


def gen_rule(rng, p, used, policy=None):
    for _ in range(40):
        fy = pick_year(rng, p)
        k = rng.random()
        ty = 'only' if k < .4 else 'max' if k < .6 else str(max(fy, pick_year(rng, p)))
        m = rng.randint(1, 12)
        d = day(rng, m, True)
        if m == 1 and rng.random() >= p['jan1']:
            de = model.day_expr(d)
            if de and de[1] == 1:
                continue
        hi = fy if ty == 'only' else 2200 if ty == 'max' else int(ty)
        if rng.random() >= p['p_month']:
            if any(m == m2 and fy <= h2 and l2 <= hi for l2, h2, m2 in used):
                continue
        used.append((fy, hi, m))
        return dict(frm=str(fy), to=ty, mon=MONTHS[m - 1], on=d, at=hms(rng, pick_at(rng, p)), suf=suffix(rng),
                    save=hms(rng, pick_save(rng, p)), letter=rng.choice(LETTERS) if rng.random() < .85 else word(rng, 1, rng.choice([1, 2, 5, 9]), '+-._'))
    return None


def gen_format(rng, p, policy):
    if rng.random() < .12:
        a, b = word(rng, 1, 6, '+-'), word(rng, 1, rng.choice([3, 6, 14]), '+-')
        return rng.choice([a, b, a + '/' + b, a + '%s' if policy else a, '%s' + b if policy else b, a + '%s' + b if policy else a])
    if policy:
        return rng.choice(['C%sT', 'E%sT', '%s', 'GMT/BST', '+03/+04', 'LMT', 'X%s', '%z' if rng.random() < p['pct_z'] * 4 else 'A%sT',
                           '-03/-02', 'MSK/MSD'])
    return rng.choice(['GMT', '+03', '-0530', 'LMT', 'EST', 'UTC', '%z' if rng.random() < p['pct_z'] * 4 else 'CET', '-00', 'A/B'])


def gen_zone(rng, p, pols):
    n = rng.randint(*p['n_era'])
    ys = sorted(pick_year(rng, p) for _ in range(n - 1))
    out = []
    prev = None
    for i in range(n):
        k = rng.random()
        pol = None
        if pols and k < p['p_pol']:
            pol = rng.choice(pols)
            rules = pol
            if rng.random() < p['nopol']:
                rules = rng.choice(['NOSUCH', 'Nix-Da', 'us', 'S'])
        elif not p['basic'] and k < p['p_pol'] + (1 - p['p_pol']) * p['fixed'] * 2:
            s = 0
            while s == 0:
                s = pick_save(rng, dict(p, std=0))
            if p['noalign'] == 0 and not p['fine']:
                s = rng.choice([3600, 1800, 7200, -3600, 900, 9900])
            rules = hms(rng, s)
            if ':' not in rules:
                rules += ':00'
        else:
            rules = '-'
        e = dict(off=hms(rng, pick_off(rng, p)), rules=rules, format=gen_format(rng, p, pol), until=[])
        if i < n - 1:
            y = ys[i]
            u = [str(y)]
            if not p['basic'] and rng.random() < p['until_full']:
                m = rng.randint(1, 12)
                u.append(MONTHS[m - 1])
                if rng.random() < .8:
                    last = rng.random() < .25
                    u.append(str(model.month_len(y, m)) if last else day(rng, m))
                    if last and rng.random() < .6:
                        u.append(rng.choice(['24:00', '24:00', '24', '23:59', '24:01', '25:00']) + suffix(rng, p['basic'], True))
                    elif rng.random() < .7:
                        u.append(hms(rng, pick_at(rng, p)) + suffix(rng, p['basic'], True))
            e['until'] = u
            key = until_key(u)
            if key is None or (prev is not None and key <= prev):
                continue
            prev = key
        out.append(e)
    if out and not out[-1]['until'] and len(out) > 1 and rng.random() < p['finite']:
        out.pop()
    return out


def until_key(u):
    y = int(u[0])
    m = MONTHS.index(u[1]) + 1 if len(u) > 1 else 1
    de = model.day_expr(u[2]) if len(u) > 2 else (0, 1)
    d = model.resolve_day(y, m, *de)
    if d is None:
        return None
    yy, mm, dd = model.civil_from_days(d)
    if yy != y:
        return None
    t = 0
    if len(u) > 3:
        t = model.secs(model.split_suffix(u[3])[0])
    # conservative: leave two days between ends so that no suffix or
    # truncation can reverse their order
    return d * 86400 + (t or 0)


def gen_names(rng, n, used, areas=None):
    out = []
    areas = areas or rng.sample(AREAS, rng.randint(1, 6))
    while len(out) < n:
        k = rng.random()
        c = rng.choice(CITY) + ('' if rng.random() < .6 else str(rng.randint(0, 99)))
        if rng.random() < .2:
            c = word(rng, 1, rng.choice([2, 8, 14, 30]), rng.choice(['', '_', '-', '+-_']))
        name = c if k < .15 else rng.choice(areas) + '/' + c
        s = model.symbol(name)
        if s in used:
            continue
        used.add(s)
        out.append(name)
    return out


def gen_db(rng, **kw):
    p = dict(PROFILE, **kw)
    db = Db()
    pn, seen = [], set()
    for n in rng.sample(POLS, min(len(POLS), rng.randint(*p['n_pol']))):
        if rng.random() < .15:
            n = word(rng, 1, rng.choice([2, 6, 12, 28]), '_-', start=ALNUM[:52] + '_')
        if model.symbol(n) not in seen:
            seen.add(model.symbol(n))
            pn.append(n)
    for n in pn:
        used, rs = [], []
        for _ in range(rng.randint(*p['n_rule'])):
            r = gen_rule(rng, p, used)
            if r:
                rs.append(r)
        if not rs:
            rs = [dict(frm='1999', to='max', mon='Mar', on='lastSun', at='1:00', suf='u', save='0', letter='S')]
        if rng.random() < .5:
            rs.sort(key=lambda r: int(r['frm']))
        db.rules[n] = rs
    used = set()
    names = gen_names(rng, rng.randint(*p['n_zone']), used)
    if rng.random() < .15:
        # neighbouring identifiers, in the other order than their names
        b, c = rng.choice(['Asia/Q', 'N', 'Etc/GMT']), rng.choice('abcpqrst')
        d = rng.choice('xyz')
        pair = [b + c + d, b + chr(ord(c) + 1) + chr(ord(d) - 33 - rng.choice([1, 1, -1]))]
        if pair[1].replace('/', '').isalnum() and not any(model.symbol(n) in used for n in pair):
            used.update(model.symbol(n) for n in pair)
            names += rng.sample(pair, 2)
    for n in names:
        z = gen_zone(rng, p, pn)
        if z and z[-1]['until'] and rng.random() < p['finite']:
            pass        # the source gives no era without end
        elif not z or z[-1]['until']:
            z.append(dict(off=hms(rng, rng.randint(-12, 14) * 3600), rules='-', format='EST', until=[]))
        db.zones[n] = z
    for n in gen_names(rng, rng.randint(*p['n_link']), used):
        db.links[n] = rng.choice(names)
    return db


# ---------------------------------------------------------------- writing
def rule_line(n, r, sep='\t'):
    return sep.join(['Rule', n, r['frm'], r['to'], '-', r['mon'], r['on'], r['at'] + r['suf'], r['save'], r['letter']])


def era_fields(e):
    return [e['off'], e['rules'], e['format']] + list(e['until'])


def blocks(db):
    out = [('rule', n, [rule_line(n, r) for r in rs]) for n, rs in db.rules.items()]
    for n, es in db.zones.items():
        ls = ['Zone\t%s\t%s' % (n, '\t'.join(era_fields(es[0])))]
        ls += ['\t\t\t' + '\t'.join(era_fields(e)) for e in es[1:]]
        out.append(('zone', n, ls))
    out += [('link', n, ['Link\t%s\t%s' % (t, n)]) for n, t in db.links.items()]
    return out


def write(db, rng=None, spread=True):
    """-> {file: text} in a plain layout."""
    files = model.ZONE_FILES
    out = {f: ['# %s' % f] for f in files}
    rng = rng or random.Random(0)
    for k, n, ls in blocks(db):
        out[rng.choice(files) if spread else files[0]].extend(ls)
    return {f: '\n'.join(l) + '\n' for f, l in out.items()}


def write_hostile(db, rng):
    """Same meaning, nasty layout."""
    files = model.ZONE_FILES
    out = {f: [] for f in files}

    def sp():
        return rng.choice([' ', '\t', '  ', ' \t ', '\t\t', '        '])

    def tail():
        return rng.choice(['', '', '', ' ', '\t', '  # a comment', '\t# Rule X 1 2', '#no space', ' #'])

    def noise():
        k = rng.random()
        if k < .15:
            return ['# Rule\tFAKE\t1999\tmax\t-\tMar\tlastSun\t1:00u\t1:00\tS']
        if k < .3:
            return ['']
        if k < .38:
            return ['   ', '\t']
        if k < .45:
            return ['   # indented comment']
        return []

    def mon(m):
        f = FULL[MONTHS.index(m)]
        s = f[:rng.randint(3, len(f))]
        return rng.choice([s, s.lower(), s.upper(), s])
    # units: one line of a rule or link, or a whole zone; the lines of a policy
    # keep their order but are spread over files and between other blocks
    units = []
    for n, rs in db.rules.items():
        k = rng.choice([1, 1, 1, 2, 3])
        fs = sorted((files.index(rng.choice(files)), rng.random()) for _ in range(k))
        at = sorted(rng.randrange(k) for _ in rs)
        base, glued = rng.random(), rng.random() < .5
        pos = sorted(base if glued else rng.random() for _ in rs)
        units += [(fs[j][0], q, i, ('rule', n, r)) for i, (j, q, r) in enumerate(zip(at, pos, rs))]
    for n, es in db.zones.items():
        units.append((rng.randrange(len(files)), rng.random(), 0, ('zone', n, es)))
    for n, t in db.links.items():
        units.append((rng.randrange(len(files)), rng.random(), 0, ('link', n, t)))
    units.sort(key=lambda u: u[:3])
    for fi, _, _, (kind, n, x) in units:
        o = out[files[fi]]
        o += noise()
        if kind == 'rule':
            s = sp()
            o.append(s.join(['Rule', n, x['frm'], x['to'], '-', mon(x['mon']), x['on'], x['at'] + x['suf'], x['save'],
                             x['letter']]) + tail())
        elif kind == 'link':
            o.append(sp().join(['Link', x, n]) + tail())
        else:
            for i, e in enumerate(x):
                fl = era_fields(e)
                if len(fl) > 4:
                    fl[4] = mon(fl[4])
                if i == 0:
                    o.append(sp().join(['Zone', n]) + sp() + sp().join(fl) + tail())
                else:
                    o += noise()
                    o.append(rng.choice(['\t', '\t\t', '\t\t\t', '\t  ', '   ', ' ', ' ' * 28, '  \t']) + sp().join(fl) + tail())
    return {f: '\n'.join(l) + rng.choice(['\n', '\n\n', '']) if l else '' for f, l in out.items()}


def relayout_order(db, rng):
    """Same database with blocks in another order (rule order kept)."""
    d = Db()
    for a in ('rules', 'zones', 'links'):
        ks = list(getattr(db, a))
        rng.shuffle(ks)
        setattr(d, a, {k: getattr(db, a)[k] for k in ks})
    return d
