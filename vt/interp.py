"""Interpret zone eras and rules the way TZ defines them (zic's algorithm):
the step function  UTC instant -> (UTC offset, is-DST, abbreviation)."""
from .model import days_from_civil, resolve_day, NEG_YEAR, INF_UNTIL, INF_TO

NEG = -10 ** 18
POS = 10 ** 18


def abbrev(fmt, total, save, letter):
    if fmt == '%z':
        a = abs(total)
        h, m, s = a // 3600, a // 60 % 60, a % 60
        return ('-' if total < 0 else '+') + '%02d' % h + ('%02d' % m if m or s else '') + ('%02d' % s if s else '')
    if '/' in fmt:
        a, b = fmt.split('/', 1)
        return b if save else a
    if '%s' in fmt:
        return None if letter is None else fmt.replace('%s', '' if letter == '-' else letter, 1)
    return fmt


class Policies:
    """rules: {name: [(frm,to,month,dow,dom,at,suf,save,letter)]}."""
    def __init__(self, rules):
        self.rules = rules
        self.cache = {}

    def occurrences(self, name, y0, y1):
        """Occurrences in years [y0, y1] plus, for each rule, its two latest
        occurrences before y0; as (local seconds, index, suffix, save, letter)."""
        k = (name, y0, y1)
        if k in self.cache:
            return self.cache[k]
        out = []
        for i, (f, t, mo, dow, dom, at, suf, save, let) in enumerate(self.rules[name]):
            if f == NEG_YEAR and t == NEG_YEAR:
                # from the beginning of time; several of them stay in calendar order
                d = resolve_day(2001, mo, dow, dom)
                out.append((NEG + (d - 11323 if d else 0), i, suf, save, let))
                continue
            ys = set()
            last = min(t, y0 - 1)
            if last >= f:
                ys.add(last)
                if last - 1 >= f:
                    ys.add(last - 1)
            ys.update(range(max(f, y0), min(t, y1) + 1))
            for y in ys:
                d = resolve_day(y, mo, dow, dom)
                if d is not None:
                    out.append((d * 86400 + at, i, suf, save, let))
        out.sort()
        if len(self.cache) > 4000:
            self.cache.clear()
        self.cache[k] = out
        return out

    def first_std_letter(self, name):
        """Letter in force before any rule; None when the text does not define it."""
        best = []
        for (f, t, mo, dow, dom, at, suf, save, let) in self.rules[name]:
            if save == 0:
                best.append(((f, mo), let))
        if not best:
            return None
        m = min(b[0] for b in best)
        ls = {b[1] for b in best if b[0] == m}
        return ls.pop() if len(ls) == 1 else None


def timeline(eras, pol, lo, hi, y_lo, y_hi):
    """eras: [(off, policy, delta, format, uy, um, ud_expr_or_day, until, suf)];
    the until date must already be a calendar day."""
    out = []
    start = NEG
    for (off, p, delta, fmt, uy, um, ud, us, suf) in eras:
        until_local = POS if uy == INF_UNTIL else days_from_civil(uy, um, 1) * 86400 + (ud - 1) * 86400 + us

        def until_utc(save):
            if until_local == POS:
                return POS
            return until_local - (0 if suf == 'u' else off if suf == 's' else off + save)
        if p is None:
            seg = [(start, off + delta, delta != 0, abbrev(fmt, off + delta, delta, ''))]
            end = until_utc(delta)
        else:
            # only years that matter for this era and window
            ey0 = y_lo if start == NEG else max(y_lo, 1970 + start // 31556952 - 1)
            ey1 = y_hi if uy == INF_UNTIL else min(y_hi, uy + 1)
            ey1 = max(ey1, ey0)
            save = 0
            let = pol.first_std_letter(p)
            seg = [(start, off, False, abbrev(fmt, off, 0, let))]
            for (loc, i, rs, rsave, rlet) in pol.occurrences(p, ey0, ey1):
                if loc < NEG // 2:
                    t = NEG
                else:
                    t = loc - (0 if rs == 'u' else off if rs == 's' else off + save)
                if t >= until_utc(save):
                    break
                save = rsave
                s = (off + save, save != 0, abbrev(fmt, off + save, save, rlet))
                if t <= start:
                    seg = [(start,) + s]
                else:
                    seg.append((t,) + s)
            end = until_utc(save)
        for s in seg:
            if s[0] < end:
                out.append(s)
        start = end
        if start >= hi:
            break
    return clip(squeeze(out), lo, hi)


def squeeze(steps):
    """A step whose wall clock never gets past the previous one replaces it
    (zic does the same: both fields describe one and the same change)."""
    res = []
    for s in steps:
        if len(res) >= 2 and res[-1][0] > NEG and s[0] + res[-1][1] <= res[-1][0] + res[-2][1]:
            res[-1] = (res[-1][0],) + s[1:]
        else:
            res.append(s)
    return res


def clip(steps, lo, hi):
    res = []
    for i, s in enumerate(steps):
        e = steps[i + 1][0] if i + 1 < len(steps) else POS
        if e <= lo or s[0] >= hi:
            continue
        t = max(s[0], lo)
        if res and res[-1][1:] == s[1:]:
            continue
        if res and res[-1][0] == t:
            res[-1] = (t,) + s[1:]
            continue
        res.append((t,) + s[1:])
    return res


def same(a, b):
    """First difference of two timelines over the same window; an abbreviation
    that the text does not define (None) matches anything."""
    ts = sorted({s[0] for s in a} | {s[0] for s in b})
    ia = ib = 0
    for t in ts:
        while ia + 1 < len(a) and a[ia + 1][0] <= t:
            ia += 1
        while ib + 1 < len(b) and b[ib + 1][0] <= t:
            ib += 1
        x, y = a[ia][1:], b[ib][1:]
        if x[:2] != y[:2] or (x[2] != y[2] and x[2] is not None and y[2] is not None):
            return t, x, y
    return None
