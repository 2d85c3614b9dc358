"""Reference specification of the compiler: what must come out for a given TZ
source and a given set of options.  Independent of the code under test: own
reader, own calendar arithmetic, own hashing."""
import re

INF_UNTIL, INF_TO, NEG_YEAR = 32767, 32766, -32767
ZONE_FILES = ['africa', 'antarctica', 'asia', 'australasia', 'backward', 'etcetera',
              'europe', 'northamerica', 'southamerica']
MON = {m: i + 1 for i, m in enumerate('jan feb mar apr may jun jul aug sep oct nov dec'.split())}
DOW = {d: i + 1 for i, d in enumerate('Mon Tue Wed Thu Fri Sat Sun'.split())}


# ---------------------------------------------------------------- calendar
def days_from_civil(y, m, d):
    y -= m <= 2
    era = y // 400
    yoe = y - era * 400
    doy = (153 * (m + (-3 if m > 2 else 9)) + 2) // 5 + d - 1
    doe = yoe * 365 + yoe // 4 - yoe // 100 + doy
    return era * 146097 + doe - 719468


def civil_from_days(z):
    z += 719468
    era = z // 146097
    doe = z - era * 146097
    yoe = (doe - doe // 1460 + doe // 36524 - doe // 146096) // 365
    doy = doe - (365 * yoe + yoe // 4 - yoe // 100)
    mp = (5 * doy + 2) // 153
    m = mp + (3 if mp < 10 else -9)
    return yoe + era * 400 + (m <= 2), m, doy - (153 * mp + 2) // 5 + 1


def iso_dow(days):
    return (days + 3) % 7 + 1


def month_len(y, m):
    return (days_from_civil(y + (m == 12), m % 12 + 1, 1) - days_from_civil(y, m, 1))


def day_expr(s):
    """(dow, dom) in the documented encoding, None if malformed."""
    if re.fullmatch('[0-9]+', s):
        d = int(s)
        return (0, d) if 1 <= d <= 31 else None
    m = re.fullmatch('last(...)', s)
    if m:
        return (DOW[m[1]], 0) if m[1] in DOW else None
    m = re.fullmatch('(...)(>=|<=)([0-9]+)', s)
    if m and m[1] in DOW and 1 <= int(m[3]) <= 31:
        return DOW[m[1]], int(m[3]) * (1 if m[2] == '>=' else -1)
    return None


def resolve_day(y, m, dow, dom):
    """Epoch days of the day denoted; None when the limit date does not exist."""
    if dow == 0:
        return days_from_civil(y, m, dom)
    if dom == 0:
        d = days_from_civil(y, m, month_len(y, m))
        return d - (iso_dow(d) - dow) % 7
    if abs(dom) > month_len(y, m):
        return None
    if dom > 0:
        d = days_from_civil(y, m, dom)
        return d + (dow - iso_dow(d)) % 7
    d = days_from_civil(y, m, -dom)
    return d - (iso_dow(d) - dow) % 7


def secs(s):
    """Seconds, or None if malformed."""
    m = re.fullmatch(r'(-?)([0-9]+)(?::([0-9]+))?(?::([0-9]+))?', s, re.ASCII)
    if not m:
        return None
    h, mi, se = int(m[2]), int(m[3] or 0), int(m[4] or 0)
    if h > 25 or mi > 59 or se > 59:
        return None
    return (h * 3600 + mi * 60 + se) * (-1 if m[1] else 1)


def trunc(a, g):
    return -(-a // g * g) if a < 0 else a // g * g


def hm(s):
    a = abs(s) // 60
    return '%s%02d:%02d' % ('-' if s < 0 else '', a // 60, a % 60)


def djb2(name):
    h = 5381
    for c in name:
        h = (h * 33 + ord(c)) & 0xffffffff
    return h


def symbol(name):
    return re.sub('[^a-zA-Z0-9_]', '_', name.replace('+', '_PLUS_'))


# ---------------------------------------------------------------- reader
def split_suffix(s):
    return (s, '') if s[-1:].isdigit() else (s[:-1], s[-1:])


def read_source(texts):
    """texts: {file: text} -> dict(rules={name:[..]}, zones={name:[..]},
    links={name:target}).  Well-formed lines only."""
    rules, zones, links = {}, {}, {}
    dup = set()
    for fn in ZONE_FILES:
        cur = None
        for line in texts.get(fn, '').split('\n'):
            line = line.split('#', 1)[0].rstrip()
            if not line:
                continue
            t = line.split()
            if line.startswith('Rule'):
                cur = None
                fy = int(t[2])
                ty = fy if t[3] == 'only' else INF_TO if t[3] == 'max' else int(t[3])
                at, suf = split_suffix(t[7])
                rules.setdefault(t[1], []).append(dict(
                    frm=fy, to=ty, month=MON[t[5][:3].lower()], on=t[6], at_s=at, suf=suf,
                    save_s=t[8], letter=t[9]))
                continue
            if line.startswith('Link'):
                cur = None
                if t[2] in links:
                    dup.add(t[2])
                links[t[2]] = t[1]
                continue
            if line.startswith('Zone'):
                cur = t[1]
                t = t[2:]
            elif not (line[0] in ' \t' and cur):
                continue
            e = dict(off_s=t[0], rules=t[1], format=t[2], until_y=INF_UNTIL, only=len(t) <= 4,
                     until_m=1, until_d='1', until_t='00:00', suf='w')
            if len(t) > 3:
                e['until_y'] = int(t[3])
            if len(t) > 4:
                e['until_m'] = MON[t[4][:3].lower()]
            if len(t) > 5:
                e['until_d'] = t[5]
            if len(t) > 6:
                e['until_t'], e['suf'] = split_suffix(t[6])
            zones.setdefault(cur, []).append(e)
    return dict(rules=rules, zones=zones, links=links, dup_links=dup)


# ---------------------------------------------------------------- options
SCOPE_GRAN = {'basic': (60, 60, 900), 'extended': (60, 60, 900), 'complete': (1, 1, 60)}


def settings(opts):
    sc = opts['scope']
    ua, off, de = SCOPE_GRAN[sc]
    g = opts.get('granularity')
    return dict(
        scope=sc, start=opts.get('start_year', 2000), until=opts.get('until_year', 2100),
        ua=g or opts.get('until_at_granularity') or ua,
        off=g or opts.get('offset_granularity') or off,
        de=g or opts.get('delta_granularity') or de,
        strict=opts.get('strict', True), tiny=sc != 'complete',
        base=opts.get('tiny_base_year', 2100), compress=opts.get('compress', True),
        langs=set(opts.get('languages', 'python').split(',')),
        actions=set(opts.get('actions', 'zonedb').split(',')))


class Fail(Exception):
    """The run must fail; .kind names the fault."""
    def __init__(self, kind, detail=''):
        super().__init__('%s %s' % (kind, detail))
        self.kind = kind


def tiny_ok(y, base):
    return y in (-32768, NEG_YEAR, INF_TO, INF_UNTIL) or -127 < y - base < 126


def tiny_to(y, base):
    if y == NEG_YEAR or y - base <= -127:
        return -127
    if y == INF_TO or y - base >= 126:
        return 126
    return y - base


def tiny_until(y, base):
    if y == NEG_YEAR or y - base <= -127:
        return -127
    if y == INF_UNTIL or y - base >= 127:
        return 127
    return y - base


class Expect:
    pass


def note(d, k, s):
    d.setdefault(k, set()).add(s)


def years_of(zones, rules_by_policy):
    lo, hi = INF_TO, NEG_YEAR
    for es in zones.values():
        for e in es:
            y = e['until_y']
            lo = min(lo, y)
            if y != INF_UNTIL:
                hi = max(hi, y)
    for rs in rules_by_policy.values():
        for r in rs:
            if r.get('anchor'):
                continue
            lo = min(lo, r['frm'])
            if r['frm'] != INF_TO:
                hi = max(hi, r['frm'])
    return lo, hi


def structural(src, opts):
    """Faults that must abort before anything is written (names, links)."""
    for l, t in src['links'].items():
        if t in src['links']:
            raise Fail('link_to_link', l)
    seen = {}
    for n in list(src['zones']) + list(src['links']):
        h = djb2(n)
        if h in seen:
            raise Fail('hash_collision', n)
        seen[h] = n
    seen = set()
    for n in list(src['zones']) + list(src['links']):
        if symbol(n) in seen:
            raise Fail('dup_symbol', n)
        seen.add(symbol(n))
    seen = set()
    for n in src['rules']:
        if symbol(n) in seen:
            raise Fail('dup_symbol', 'policy ' + n)
        seen.add(symbol(n))


def expect(src, opts, include=None):
    """-> Expect, or raises Fail."""
    o = settings(opts)
    X = Expect()
    X.opts = o
    rz, rp, rl, nz, np_ = {}, {}, {}, {}, {}
    X.removed_zones, X.removed_policies, X.removed_links = rz, rp, rl
    X.notable_zones, X.notable_policies, X.notable_links = nz, np_, {}
    if o['scope'] == 'basic' and o['start'] < 1980 or o['scope'] == 'extended' and o['start'] < 1974:
        raise Fail('scope_start')
    # the start of the first year depends on the year before
    if o['tiny'] and not (tiny_ok(o['start'] - 1, o['base']) and tiny_ok(o['until'], o['base'])):
        raise Fail('tiny_range')
    # 16-bit years (start -32768 is the mark of an invalid year: not judged)
    if o['start'] < -32768 or o['until'] > 32767 or not -32768 <= o['base'] <= 32767:
        raise Fail('year_width')
    structural(src, opts)
    X.original_years = years_of(src['zones'], src['rules'])
    zones = {n: [dict(e) for e in es] for n, es in src['zones'].items()}
    links = dict(src['links'])
    if include:
        for n in list(zones):
            if n not in include:
                del zones[n]
                note(rz, n, 'Zone missing from include list')
        for n in list(links):
            if n not in include:
                del links[n]
                note(rl, n, 'Link missing from include list')
    want = len(zones), len(links)
    basic = o['scope'] == 'basic'
    era_flags = {}
    for n in list(zones):
        z = zone_expect(n, zones[n], o, basic, rz, nz, era_flags)
        if z is None:
            del zones[n]
        else:
            zones[n] = z
    # FORMAT faults abort: they are looked at only in zones still standing then
    for n, (es, valid) in list(zones.items()):
        if valid == 'format':
            raise Fail('format', n)
    zones = {n: es for n, (es, valid) in zones.items()}

    used = {e['policy'] for es in zones.values() for e in es if e['policy']}
    policies, pflags = {}, {}
    for n, rs in src['rules'].items():
        if n not in used:
            note(rp, n, 'unused')
            continue
        p = policy_expect(n, [dict(r) for r in rs], o, basic, rp, np_, pflags)
        if p is not None:
            policies[n] = p
    for n in list(zones):
        for e in zones[n]:
            if e['policy'] and e['policy'] not in policies:
                note(rz, n, "policy '%s' not found" % e['policy'])
                del zones[n]
                break
    for l in list(links):
        if links[l] not in zones:
            note(rl, l, 'Target Zone "%s" missing' % links[l])
            del links[l]
    if not basic and (len(zones), len(links)) != want:
        raise Fail('loss', '%s' % sorted(rz.items())[:3])
    X.zone_flags = {}
    for n, es in zones.items():
        lo, hi = era_flags[n]
        for e in es:
            if e['policy']:
                lo |= pflags[e['policy']][0]
                hi |= pflags[e['policy']][1]
        X.zone_flags[n] = (lo, hi)
    X.lower = any(f[0] for f in X.zone_flags.values())
    X.upper = any(f[1] for f in X.zone_flags.values())
    X.start_acc = o['start'] if X.lower else NEG_YEAR
    X.until_acc = o['until'] if X.upper else INF_UNTIL
    X.ids = {n: djb2(n) for n in list(zones) + list(links)}
    if 0 in X.ids.values():
        raise Fail('zero_id')
    for n, rs in policies.items():
        if any(not -32768 <= r[k] <= 32767 for r in rs for k in ('frm', 'to')):
            raise Fail('year_width', n)
    X.zones, X.links, X.policies = zones, links, policies
    X.generated_years = years_of(zones, policies)
    X.merged = {}
    for n, s in nz.items():
        X.merged.setdefault(n, (set(), {}))[0].update(s)
    for n, es in zones.items():
        for e in es:
            if e['policy'] in np_:
                X.merged.setdefault(n, (set(), {}))[1][e['policy']] = np_[e['policy']]
    return X


def zone_expect(n, es, o, basic, rz, nz, flags):
    """Returns (eras, 'ok'|'format') or None if removed."""
    start, until = o['start'], o['until']
    kept = [e for e in es if e['until_y'] >= start - 1]
    if not kept:
        note(rz, n, 'All eras are too old, < year %d' % start)
        return None
    lo = len(kept) < len(es)
    k2, begin = [], NEG_YEAR
    for e in kept:
        if begin <= until + 1:
            k2.append(e)
        begin = e['until_y']
    hi = len(k2) < len(kept)
    if hi:
        note(nz, n, 'Removed %d zone eras after year %d' % (len(kept) - len(k2), until))
    flags[n] = (lo, hi)
    es = k2
    if es[-1]['until_y'] != INF_UNTIL:
        es[-1].update(until_y=INF_UNTIL, only=True, until_m=1, until_d='1', until_t='00:00', suf='w')

    def drop(why):
        note(rz, n, why)
    if basic and any(not e['only'] for e in es):
        return drop('UNTIL contains month/day/time')
    # end day
    bad = False
    for e in es:
        de = day_expr(e['until_d'])
        if de is None:
            return drop("invalid until_day '%s'" % e['until_d'])
        if e['until_y'] == INF_UNTIL and de[0]:
            d = None
        else:
            d = resolve_day(e['until_y'], e['until_m'], *de)
        if d is None:
            raise Fail('bad_day', '%s %s' % (n, e['until_d']))
        if de[0] == 0:
            y, m, dd = e['until_y'], e['until_m'], de[1]
        else:
            y, m, dd = civil_from_days(d)
        if y < e['until_y']:
            return drop('Shift to previous year unsupported for %s' % e['until_d'])
        if y > e['until_y']:
            bad = True
            drop('Shift to following year unsupported for %s' % e['until_d'])
            m = 13
        if m != e['until_m']:
            note(nz, n, "until_month shifted from '%d' to '%d' due to %s" % (e['until_m'], m, e['until_d']))
        e['m'], e['d'] = m, dd
    if bad:
        return None
    for e in es:
        s, u = e['until_t'], secs(e['until_t'])
        if u is None:
            return drop("invalid UNTIL '%s'" % s)
        if u < 0:
            return drop("negative UNTIL '%s'" % s)
        if u % 900:
            note(nz, n, "UNTIL '%s' not multiple of :15 min" % s)
        t = trunc(u, o['ua'])
        if t != u:
            if o['strict']:
                return drop("UNTIL '%s' must be multiples of '%d' seconds" % (s, o['ua']))
            note(nz, n, "UNTIL '%s' truncated to '%s'" % (s, hm(t)))
        elif u % 60:
            note(nz, n, "UNTIL '%s' not multiple of :01 min" % s)
        e['until_exact'], e['until'] = u, t
    for e in es:
        e['suf'] = e['suf'] or 'w'
        if e['suf'] not in (('w',) if basic else ('w', 's', 'u')):
            return drop("unsupported UNTIL suffix '%s'" % e['suf'])
    for e in es:
        s, v = e['off_s'], secs(e['off_s'])
        if v is None:
            return drop("invalid STDOFF '%s'" % s)
        if v % 900:
            note(nz, n, "STDOFF '%s' not multiple of :15 min" % s)
        elif v % 1800:
            note(nz, n, "STDOFF '%s' not multiple of :30 min" % s)
        t = trunc(v, o['off'])
        if t != v:
            if o['strict']:
                return drop("STDOFF '%s' must be multiples of '%d' seconds" % (s, o['off']))
            note(nz, n, "STDOFF '%s' truncated to '%s'" % (s, hm(t)))
        if abs(t) >= 128 * 900:
            return drop("STDOFF '%s' too large for 8-bits" % s)
        e['off_exact'], e['off'] = v, t
    for e in es:
        s = e['rules']
        e['delta'] = e['delta_exact'] = 0
        e['policy'] = None
        if ':' in s:
            if basic:
                return drop("unsupported fixed RULES '%s'" % s)
            v = secs(s)
            if v is None:
                return drop("invalid RULES '%s'" % s)
            if v == 0:
                return drop("unexpected 0:00 in RULES '%s'" % s)
            if v < 0:
                note(nz, n, "RULES '%s' is a negative DST" % s)
            elif v != 3600:
                note(nz, n, "RULES '%s' different from 1:00" % s)
            t = trunc(v, o['de'])
            if t != v:
                if o['strict']:
                    return drop("RULES '%s' must be multiples of '%d' seconds" % (s, o['de']))
                note(nz, n, "RULES '%s' truncated to '%s'" % (s, hm(t)))
            elif v % 60:
                note(nz, n, "RULES '%s' not multiple of :01 min" % s)
            e['delta_exact'], e['delta'] = v, t
        elif s != '-':
            e['policy'] = s
    for e in es:
        f = e['format']
        if not f or ('%' in f and f != '%z' and not re.fullmatch('[^%/]*%s[^%/]*', f)) or ('%s' in f and e['policy'] is None):
            return es, 'format'
        if e['policy'] is not None and '%s' not in f and '/' not in f:
            note(nz, n, "RULES not fixed but FORMAT is missing '%s' or '/'")
    prev = None
    for e in es:
        c = (e['until_y'], e['m'], e['d'], e['until_exact'])
        if prev and c <= prev:
            return drop('non increasing UNTIL: %04d-%02d-%02d %ds' % c)
        prev = c
    return es, 'ok'


def policy_expect(n, rs, o, basic, rp, np_, flags):
    source_std = [r for r in rs if secs(r['save_s']) == 0]
    lo_y, hi_y = o['start'] - 1, o['until'] + 1
    cls = [-1 if r['to'] < lo_y else 1 if r['frm'] >= hi_y else 0 for r in rs]
    prior = [(r['to'], r['month']) for r in rs if r['to'] < lo_y]
    best = max(prior) if prior else None
    kept, lower, upper = [], False, False
    for r, c in zip(rs, cls):
        if c == 0 or (r['to'] < lo_y and (r['to'], r['month']) == best and r['to'] > 0):
            kept.append(r)
        elif c < 0:
            lower = True
        else:
            upper = True
    flags[n] = (lower, upper)

    def drop(why):
        note(rp, n, why)
    if not kept:
        return drop('All rules too old or too new')
    rs = kept
    if basic:
        cnt = {}
        for r in rs:
            for y in range(r['frm'], r['to'] + 1):
                k = (y, r['month'])
                cnt[k] = cnt.get(k, 0) + 1
        multi = [(k, c) for k, c in cnt.items() if c > 1]
        if multi:
            (y, m), c = multi[-1]
            return drop("Found %d transitions in year/month '%04d-%02d'" % (c, y, m))
    bad = False
    for r in rs:
        s, v = r['at_s'], secs(r['at_s'])
        if v is None:
            return drop("invalid AT '%s'" % s)
        if v < 0:
            return drop("negative AT '%s'" % s)
        if v % 900:
            note(np_, n, "AT '%s' not multiple of :15 min" % s)
        t = trunc(v, o['ua'])
        if t != v:
            if o['strict']:
                drop("AT '%s' must be multiples of '%d' seconds" % (s, o['ua']))
                bad = True
            note(np_, n, "AT '%s' truncated to '%s'" % (s, hm(t)))
        elif v % 60:
            note(np_, n, "AT '%s' not multiple of 1-min" % s)
        r['at_exact'], r['at'] = v, t
    if bad:
        return None
    for r in rs:
        r['suf'] = r['suf'] or 'w'
        if r['suf'] not in ('w', 's', 'u'):
            return drop("unsupported AT suffix '%s'" % r['suf'])
    for r in rs:
        s, v = r['save_s'], secs(r['save_s'])
        if v is None:
            return drop("invalid SAVE '%s'" % s)
        if v < 0:
            note(np_, n, "SAVE '%s' is a negative DST" % s)
        elif v not in (0, 3600):
            note(np_, n, "SAVE '%s' different from 1:00" % s)
        t = trunc(v, o['de'])
        if t != v:
            if o['strict']:
                return drop("SAVE '%s' must be a multiple of '%d' seconds" % (s, o['de']))
            note(np_, n, "SAVE '%s' truncated to a multiple of '%d' seconds" % (s, o['de']))
        elif v % 60:
            note(np_, n, "SAVE '%s' not multiple of 1-min" % s)
        if not -3600 <= t < 12 * 900:
            return drop("SAVE '%s' too large for 4-bits" % s)
        r['save_exact'], r['save'] = v, t
    for r in rs:
        de = day_expr(r['on'])
        if de is None:
            return drop("invalid on_day '%s'" % r['on'])
        if de[0] and -6 <= de[1] <= -1 and r['month'] == 1:
            return drop("cannot shift '%s' from Jan to prev year" % r['on'])
        if de[0] and de[1] >= 26 and r['month'] == 12:
            return drop("cannot shift '%s' from Dec to next year" % r['on'])
        r['dow'], r['dom'] = de
    std = [r for r in rs if r['save_exact'] == 0]
    def when(r):
        d = resolve_day(r['frm'], r['month'], r['dow'], r['dom'])
        if d is None:
            raise Fail('bad_day', '%s %s' % (n, r['on']))
        if r['dow'] == 0:
            return r['frm'], r['month'], r['dom']
        y, m, dd = civil_from_days(d)
        return r['frm'], (m if y == r['frm'] else 13 if y > r['frm'] else 0), dd
    alone = len(rs) == 1 and bool(std)
    if not alone:
        for r in rs:
            when(r)
    if std:
        letter = min(std, key=when)['letter'] if not alone else std[0]['letter']
    elif source_std:
        def first(r):
            dow, dom = day_expr(r['on']) or (0, 0)
            if dow == 0:
                return r['frm'], r['month'], dom
            d = resolve_day(r['frm'], r['month'], dow, dom)
            if d is None:
                return r['frm'], r['month'], 0
            y, m, dd = civil_from_days(d)
            return r['frm'], m + 12 * (y - r['frm']), dd
        letter = min(source_std, key=first)['letter']
    else:
        letter = '-'
    anchor = dict(frm=NEG_YEAR, to=NEG_YEAR, month=1, dow=0, dom=1, at=0, at_exact=0, suf='w',
                  save=0, save_exact=0, letter=letter, anchor=True)
    rs = [anchor] + ([] if alone else rs)
    for r in rs:
        if r['letter'] == '-':
            r['letter'] = ''
        if len(r['letter']) > 1:
            note(np_, n, "LETTER '%s' not single character" % r['letter'])
    if basic:
        for r in rs:
            if not r.get('anchor') and r['frm'] > NEG_YEAR and r['month'] == 1 and r['dom'] in (1, -7):
                return drop('Transition on Jan 1 not supported (%04d-%02d-%02d)' % (r['frm'], 1, 1))
    return rs


# ---------------------------------------------------------------- canonical records
def canon_rule(r):
    return (r['frm'], r['to'], r['month'], r['dow'], r['dom'], r['at'], r['suf'], r['save'], r['letter'])


def canon_era(e):
    return (e['off'], e['policy'], e['delta'], e['format'], e['until_y'], e['m'], e['d'], e['until'], e['suf'])


def exact_zone(X, n):
    """True when no value of the zone was changed by truncation."""
    for e in X.zones[n]:
        if (e['until'], e['off'], e['delta']) != (e['until_exact'], e['off_exact'], e['delta_exact']):
            return False
        for r in X.policies[e['policy']] if e['policy'] else ():
            if (r['at'], r['save']) != (r['at_exact'], r['save_exact']):
                return False
    return True
