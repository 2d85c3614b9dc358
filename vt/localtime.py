"""Local-time oracle: interpret observed records and the source text by the TZ
rules and compare the two step functions over the years declared accurate."""
import os
import struct
import subprocess

from . import interp, model, run


def source_eras(src, n):
    out = []
    for e in src['zones'][n]:
        r, p, d = e['rules'], None, 0
        if ':' in r:
            d = model.secs(r)
        elif r != '-':
            p = r
        if e['until_y'] == model.INF_UNTIL:
            y, m, dd = model.INF_UNTIL, 1, 1
        else:
            y, m, dd = model.civil_from_days(model.resolve_day(e['until_y'], e['until_m'], *model.day_expr(e['until_d'])))
        out.append((model.secs(e['off_s']), p, d, e['format'], y, m, dd, model.secs(e['until_t']), e['suf'] or 'w'))
    return out


def source_rules(src, names):
    out = {}
    for n in names:
        out[n] = [(r['frm'], r['to'], r['month']) + model.day_expr(r['on']) +
                  (model.secs(r['at_s']), r['suf'] or 'w', model.secs(r['save_s']), '' if r['letter'] == '-' else r['letter'])
                  for r in src['rules'][n]]
    return out


def window(ctx, until, o, lang):
    y0 = max(ctx['start_acc'], 1800)
    y1 = min(ctx['until_acc'], max(until + 40, 2120))
    if o['tiny'] and lang in ('arduino', 'c'):
        # years that one byte can express, with the year before each
        y0 = max(y0, o['base'] - 125)
        y1 = min(y1, o['base'] + 126)
    return y0, y1


def month_order(src, X):
    """{policy: rules left} for policies in which the last rule before the range
    is not in the last (year, month) that has rules, because a day such as
    Tue>=28 lies in the next month (see KNOWN_FINDINGS.txt)."""
    lo, out = X.opts['start'] - 1, {}

    def when(r):
        return model.resolve_day(r['to'], r['month'], *model.day_expr(r['on'])) * 86400 + model.secs(r['at_s'])
    for n in X.policies:
        prior = [r for r in src['rules'][n] if 0 < r['to'] < lo]
        if prior:
            best = max((r['to'], r['month']) for r in prior)
            last = max(when(r) for r in prior if (r['to'], r['month']) == best)
            if any(when(r) > last - 86400 for r in prior if (r['to'], r['month']) != best):
                out[n] = [r for r in src['rules'][n] if r['to'] >= lo or (r['to'], r['month']) == best]
    return out


def reference(src, zones, y0, y1):
    """{zone: steps} for the source text."""
    names = {e['rules'] for z in zones for e in src['zones'][z] if e['rules'] in src['rules']}
    # an era outside the range may name rules which do not exist
    lost = {e['rules']: [] for z in zones for e in src['zones'][z] if e['rules'] not in src['rules']}
    pol = interp.Policies(dict(source_rules(src, names), **lost))
    lo, hi = model.days_from_civil(y0, 1, 1) * 86400, model.days_from_civil(y1, 1, 1) * 86400
    return {z: interp.timeline(source_eras(src, z), pol, lo, hi, y0 - 1, y1 + 1) for z in zones}


def observed(db, zones, y0, y1):
    pol = interp.Policies(db['policies'])
    lo, hi = model.days_from_civil(y0, 1, 1) * 86400, model.days_from_civil(y1, 1, 1) * 86400
    return {z: interp.timeline(db['zones'][z], pol, lo, hi, y0 - 1, y1 + 1) for z in zones}


def compare(rec, src, X, db, lang, ctx, memo):
    """memo: {(y0, y1): reference timelines} shared by the surfaces of one case."""
    y0, y1 = window(ctx, X.opts['until'], X.opts, lang)
    if y1 <= y0:
        return
    zones = [z for z in db['zones'] if z in X.zones and model.exact_zone(X, z)]
    if (y0, y1) not in memo:
        memo[(y0, y1)] = reference(src, [z for z in X.zones if model.exact_zone(X, z)], y0, y1)
    ref = memo[(y0, y1)]
    try:
        got = observed(db, zones, y0, y1)
    except Exception as e:
        rec.add('local-time', lang, 'cannot be interpreted: %s %s' % (type(e).__name__, e))
        return
    for z in zones:
        rec.stats['zone timelines'] += 1
        for e in db['zones'][z]:
            # runtimes compare the parts of a date: they must be one
            y, m, d = e[4:7]
            if y != model.INF_UNTIL and y0 <= y <= y1 and not (1 <= m <= 12 and 1 <= d <= model.month_len(y, m)):
                rec.add('local-time', lang, '%s: an era of the %s database ends on %s, which is no date' % (z, lang, e[4:7]))
        rec.stats['steps'] += len(ref[z])
        a, b = ref[z], got[z]
        last = src['zones'][z][-1]['until_y']
        if last != model.INF_UNTIL:
            # the source says nothing after the end of its last era
            lo, end = (model.days_from_civil(y, 1, 1) * 86400 - d * 86400 for y, d in ((y0, 0), (last, 2)))
            if end <= lo:
                continue
            a, b = interp.clip(a, lo, end), interp.clip(b, lo, end)
        r = interp.same(a, b)
        if r:
            t, a, b = r
            if 'month order' not in memo:
                memo['month order'] = month_order(src, X)
            few = memo['month order']
            if {e['policy'] for e in X.zones[z]} & set(few):
                alt = reference(dict(src, rules=dict(src['rules'], **few)), [z], y0, y1)[z]
                if last != model.INF_UNTIL:
                    alt = interp.clip(alt, lo, end)
                if interp.same(alt, got[z] if last == model.INF_UNTIL else interp.clip(got[z], lo, end)) is None:
                    rec.add('local-time:month-order', lang, '%s at %s UTC: the last rule before the range is left out' % (z, iso(t)))
                    continue
            rec.add('local-time', lang, '%s at %s UTC: source gives %s, %s database gives %s' % (z, iso(t), a, lang, b))


def iso(t):
    if t < -10 ** 14:
        return 'the beginning'
    y, m, d = model.civil_from_days(t // 86400)
    s = t % 86400
    return '%04d-%02d-%02d %02d:%02d:%02d' % (y, m, d, s // 3600, s // 60 % 60, s % 60)


# ---------------------------------------------------------------- zic
def tzif(path):
    with open(path, 'rb') as f:
        b = f.read()

    def hdr(o):
        return struct.unpack('>6I', b[o + 20:o + 44])
    a = hdr(0)
    o = 44 + a[3] * 5 + a[4] * 6 + a[5] + a[2] * 8 + a[1] + a[0]
    ug, st, lp, tc, ty, ch = hdr(o)
    o += 44
    ts = struct.unpack('>%dq' % tc, b[o:o + 8 * tc])
    o += 8 * tc
    ix = b[o:o + tc]
    o += tc
    tt = [struct.unpack('>iBB', b[o + 6 * i:o + 6 * i + 6]) for i in range(ty)]
    o += 6 * ty
    chars = b[o:o + ch]

    def t(i):
        u, d, a = tt[i]
        return u, bool(d), chars[a:].split(b'\0')[0].decode()
    return [(interp.NEG,) + t(0)] + [(ts[k],) + t(ix[k]) for k in range(tc)]


def zic_agrees(src, texts, zones, y0, y1, scratch):
    """Zones whose source interpretation agrees with zic, the reference
    implementation (y1 <= 2037); None when zic refuses the source."""
    d, out = os.path.join(scratch, 'zin'), os.path.join(scratch, 'zout')
    os.makedirs(d), os.makedirs(out)
    fs = []
    for f, t in texts.items():
        p = os.path.join(d, f)
        with open(p, 'w', encoding='utf-8') as h:
            h.write(t)
        fs.append(p)
    r = subprocess.run(['/usr/sbin/zic', '-b', 'fat', '-d', out] + fs, capture_output=True, text=True, timeout=120)
    if r.returncode:
        return None
    ref = reference(src, zones, y0, y1)
    lo, hi = model.days_from_civil(y0, 1, 1) * 86400, model.days_from_civil(y1, 1, 1) * 86400
    ok = set()
    for z in zones:
        if interp.same(ref[z], interp.clip(tzif(os.path.join(out, z)), lo, hi)) is None:
            ok.add(z)
    return ok
