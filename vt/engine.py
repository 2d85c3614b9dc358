"""One observed case: write the source, run the real command line (one run for
python+arduino+go+json+zonelist, one for c), decode every artefact and compare
it with the reference model.  The result is a list of discrepancies
(aspect, surface, detail); a check decides which aspects its property is about."""
import collections
import json
import math
import os
import sys
import traceback

from . import model, run, texts, decode_py, decode_cc, decode_go, localtime
from .decode_py import DecodeError, need
from .decode_cc import ToolError
from .model import symbol

ALL = ('python', 'arduino', 'c', 'go', 'json', 'zonelist')
RULE_F = ('frm', 'to', 'month', 'dow', 'dom', 'at', 'suf', 'save', 'letter')
ERA_F = ('off', 'policy', 'delta', 'format', 'until_y', 'until_m', 'until_d', 'until', 'suf')


class Case:
    def __init__(self, name, src, opts, include=None, env=None, surfaces=ALL, localtime=False):
        self.name, self.src, self.opts, self.include = name, src, dict(opts), include
        self.env, self.surfaces, self.localtime = env or {}, surfaces, localtime
        self.prefill = False

    def to_json(self):
        return dict(name=self.name, src=self.src, opts=self.opts, include=self.include, env=self.env,
                    surfaces=list(self.surfaces), localtime=self.localtime, prefill=self.prefill)

    @staticmethod
    def from_json(d):
        c = Case(d['name'], d['src'], d['opts'], d['include'], d['env'], tuple(d['surfaces']), d['localtime'])
        c.prefill = d['prefill']
        return c


_real = {}


def real_texts(which):
    """Source texts of a committed TZDB."""
    if which not in _real:
        from . import tzdata
        with run.Scratch('vtr') as d:
            tzdata.write_real(which, d)
            t = {}
            for f in model.ZONE_FILES:
                with open(os.path.join(d, f), encoding='utf-8') as h:
                    t[f] = h.read()
            _real[which] = (t, model.read_source(t))
    return _real[which]


def source(case):
    if isinstance(case.src, str):
        return real_texts(case.src)
    return case.src, model.read_source(case.src)


def write_texts(t, d):
    os.makedirs(d, exist_ok=True)
    for f in model.ZONE_FILES:
        with open(os.path.join(d, f), 'w', encoding='utf-8') as h:
            h.write(t.get(f, ''))


def write_include(lines, path):
    with open(path, 'w', encoding='utf-8') as h:
        h.write('\n'.join(lines) + '\n')


def include_set(lines):
    return {l.strip() for l in lines or () if l.strip() and not l.strip().startswith('#')}


# ---------------------------------------------------------------- language limits
def fragments(names):
    c = collections.Counter()
    for n in names:
        for part in n.split('/')[:-1]:
            c[part + '/'] += 1
    return sorted(f for f, k in c.items() if len(f) > 3 and k > 3)


def compress(name, frags):
    parts = name.split('/')
    return ''.join(chr(frags.index(p + '/') + 1) if p + '/' in frags else p + '/' for p in parts[:-1]) + parts[-1]


def lang_faults(X, lang):
    """Reasons why the database cannot be represented in this language."""
    o, out = X.opts, set()
    eras = [e for es in X.zones.values() for e in es]
    rules = [r for rs in X.policies.values() for r in rs]
    if lang in ('arduino', 'c'):
        low = o['scope'] != 'complete'
        if low:
            if any(r['at'] % 60 for r in rules) or any(e['until'] % 60 for e in eras):
                out.add('time not in minutes')
            if any(e['off'] % 60 for e in eras):
                out.add('offset not in minutes')
            for d in [r['save'] for r in rules] + [e['delta'] for e in eras]:
                if d % 900:
                    out.add('delta not in quarter hours')
                if not -4 <= d // 900 <= 11:
                    out.add('delta code')
        else:
            for d in [r['save'] for r in rules] + [e['delta'] for e in eras]:
                if d % 60:
                    out.add('delta not in minutes')
                if not -128 <= d // 60 <= 127:
                    out.add('delta minutes')
        if o['compress'] and len(fragments(list(X.zones) + list(X.links))) >= 31:
            out.add('fragments')
        if len({r['letter'] for r in rules} | {''}) > 255:
            out.add('letters')
        if any(len(rs) > 255 for rs in X.policies.values()):
            out.add('rules')
        if any(len(es) > 255 for es in X.zones.values()):
            out.add('eras')
        if any(b[0] > 255 for b in getattr(X, 'bufs', {}).values()):
            out.add('buffer size')
        if lang == 'arduino' and len(X.zones) + len(X.links) > 65535:
            out.add('registry size')
    if lang == 'go':
        for d in [r['save'] for r in rules] + [e['delta'] for e in eras]:
            if d % 60:
                out.add('delta not in minutes')
            if not -128 <= d // 60 <= 127:
                out.add('delta minutes')
        if sum(map(len, {r['letter'] for r in rules})) > 255:
            out.add('letters')
        if sum(map(len, {e['format'].replace('%s', '%') for e in eras})) > 65535:
            out.add('formats')
        if sum(map(len, list(X.zones) + list(X.links))) > 65535:
            out.add('names')
        if len(rules) > 65535 or len(eras) > 65535 or len(X.zones) + len(X.links) > 65535:
            out.add('count')
        if len(X.policies) + 1 > 255:
            out.add('policies')
    return out


# ---------------------------------------------------------------- buffer sizes
def estimate(X, env):
    """Reference of the buffer estimation, using the instrumented processor."""
    from acetime import zone_processor as zp
    old = os.environ.get('VT_BUF_MOD')
    if 'VT_BUF_MOD' in env:
        os.environ['VT_BUF_MOD'] = env['VT_BUF_MOD']
    try:
        o = X.opts
        pol = {n: dict(name=n, rules=[dict(zip(zp.RULE, model.canon_rule(r))) for r in rs]) for n, rs in X.policies.items()}
        lo, hi = X.generated_years
        start, until = min(lo, o['start']), max(hi + 1, o['until'])
        res, last = {}, 0
        for n, es in X.zones.items():
            zi = dict(name=n, eras=[])
            for e in es:
                c = model.canon_era(e)
                d = dict(zip(zp.ERA, (c[0], c[2], c[3], c[4], c[5], c[6], c[7], c[8])))
                d['zone_policy'] = pol[e['policy']] if e['policy'] else None
                zi['eras'].append(d)
            dig, term = zp.digest(zi), zp.terminal_start(zi)
            best = (0, 0)
            for y in range(start - 1, until + 1):
                b = zp.sizes(dig, term, y)[1]
                if b > best[0]:
                    best = (b, y)
                if y >= term + 2:
                    break
            last = max(last, y)
            res[n] = best
        return res, max([b for b, _ in res.values()], default=0), (start, last)
    finally:
        if old is None:
            os.environ.pop('VT_BUF_MOD', None)
        else:
            os.environ['VT_BUF_MOD'] = old


# ---------------------------------------------------------------- observation
class Rec:
    """What one case showed."""
    def __init__(self):
        self.d = []          # discrepancies
        self.obs = {}        # brief status per run
        self.stats = collections.Counter()
        self.inconclusive = []
        self.X = None
        self.fail = None
        self.go_dir = None
        self.wall = 0.0
        self.src = None
        self.memo = {}

    def add(self, aspect, surface, detail):
        if sum(1 for a, s, _ in self.d if (a, s) == (aspect, surface)) < 4:
            self.d.append((aspect, surface, str(detail)[:600]))


def expectation(case, src):
    """-> (Expect or None, Fail or None)"""
    try:
        X = model.expect(src, case.opts, include_set(case.include))
    except model.Fail as f:
        return None, f
    if case.opts.get('estimate'):
        X.bufs, X.max_buf, X.est = estimate(X, case.env)
        if X.max_buf > 8 and not case.opts.get('ignore_buf'):
            return None, model.Fail('buffer', X.max_buf)
    else:
        X.bufs, X.max_buf, X.est = {n: (0, 0) for n in X.zones}, 0, (0, 0)
    return X, None


def observe(args):
    """(case, scratch dir) -> Rec.  Go decoding is left to the caller."""
    case, root = args
    rec = Rec()
    t, src = source(case)
    X, fail = expectation(case, src)
    rec.X, rec.fail = X, fail
    rec.src = src if case.localtime else None
    ind = os.path.join(root, 'in')
    write_texts(t, ind)
    opts = dict(case.opts)
    if case.include is not None:
        opts['include_list'] = os.path.join(root, 'include')
        write_include(case.include, opts['include_list'])
    surf = set(case.surfaces)
    jname = opts.get('json_file', 'zonedb.json')
    la = [l for l in ('python', 'arduino', 'go') if l in surf]
    act = [a for a in ('json', 'zonelist') if a in surf]
    groups = []
    if la or act:
        groups.append(('A', la or ['python'], (['zonedb'] if la else []) + act))
    if 'c' in surf:
        groups.append(('C', ['c'], ['zonedb']))
    for tag, langs, actions in groups:
        lf = {l: lang_faults(X, l) for l in langs} if X else {}
        good = [l for l in langs if not lf.get(l)]
        bad = [l for l in langs if lf.get(l)]
        for l in bad:
            out = os.path.join(root, 'out%s_%s' % (tag, l))
            o = run.run_cli(run.cli_args(dict(opts, languages=l, actions='zonedb'), ind, out), out, env=case.env)
            if o.kind in ('timeout', 'crash'):
                rec.inconclusive.append('%s %s' % (o.kind, o.emsg))
            elif o.ok:
                rec.add('accepts-overflow', l, 'accepted although %s' % sorted(lf[l]))
            else:
                rec.stats['refused:' + l] += 1
        if not good and not (tag == 'A' and act):
            continue
        if not good:
            good, actions = ['python'], act
        out = os.path.join(root, 'out' + tag)
        if case.prefill:
            prefill(out, jname)
        elif 'json' in actions:
            os.makedirs(os.path.join(out, os.path.dirname(jname)), exist_ok=True)
        o = run.run_cli(run.cli_args(dict(opts, languages=','.join(good), actions=','.join(actions)), ind, out), out, env=case.env)
        rec.wall += o.wall
        rec.stats['cli-runs'] += 1
        rec.obs[tag] = o.brief()
        if o.kind in ('timeout', 'crash'):
            rec.inconclusive.append('%s %s' % (o.kind, o.emsg))
            continue
        if fail is not None:
            if o.ok:
                rec.add('missing-fail:' + fail.kind, tag, 'run succeeded although %s' % fail)
            else:
                rec.stats['refused:' + fail.kind] += 1
            if case.prefill and not o.ok:
                ch = prefilled_changes(out)
                if ch:
                    rec.add('files-on-fail', tag, 'failed with %s, but changed %s' % (o.emsg, ch))
            if o.files and not o.ok:
                rec.add('files-on-fail', tag, 'failed with %s, but wrote %s' % (o.emsg, o.files))
            continue
        if not o.ok:
            rec.add('unexpected-fail', tag, '%s: %s' % (o.etype, o.emsg))
            continue
        for l in good:
            if 'zonedb' in actions:
                surface(rec, case, X, l, out)
        if 'json' in actions:
            guard(rec, 'json', lambda: cmp_json(rec, X, case, good, os.path.join(out, jname)))
        if 'zonelist' in actions:
            guard(rec, 'zonelist', lambda: cmp_zonelist(rec, X, case, os.path.join(out, 'zones.txt')))
    return rec


def prefill(out, jname):
    """Files of an earlier run, which a failing run must leave alone."""
    os.makedirs(os.path.join(out, os.path.dirname(jname)))
    for n in {f for fs in TEXT_FILES.values() for f in fs} | {jname, 'zones.txt'}:
        with open(os.path.join(out, n), 'w') as h:
            h.write('previous %s\n' % n)


def prefilled_changes(out):
    bad = []
    for n in sorted(run.tree(out)):
        with open(os.path.join(out, n), errors='replace') as h:
            if h.read() != 'previous %s\n' % n:
                bad.append(n)
    return bad


def guard(rec, surface, fn):
    try:
        return fn()
    except DecodeError as e:
        rec.add('decode', surface, e)
    except ToolError as e:
        rec.inconclusive.append('%s: %s' % (surface, e))
    except Exception as e:
        # the artefact has a shape the reader cannot follow
        rec.add('decode', surface, '%s: %s at %s' % (type(e).__name__, e, traceback.format_exc()[-400:]))


def surface(rec, case, X, lang, out):
    o = X.opts
    ns = case.opts.get('db_namespace', 'zonedb')
    if lang == 'go':
        rec.go_dir = out
        return
    if lang == 'python':
        db = guard(rec, lang, lambda: decode_py.decode(out))
    else:
        db = guard(rec, lang, lambda: decode_cc.decode(out, lang == 'arduino', o['scope'], ns, o['base'], pedantic=bool(X.zones)))
    if db is None:
        return
    guard(rec, lang, lambda: cmp_db(rec, case, X, db, lang))
    guard(rec, lang, lambda: cmp_texts(rec, case, X, db, lang, out))


# ---------------------------------------------------------------- comparison
def want_policies(X, lang):
    o = X.opts
    tiny = o['tiny'] and lang in ('arduino', 'c')
    out = {}
    for n, rs in X.policies.items():
        l = []
        for r in rs:
            c = list(model.canon_rule(r))
            if tiny:
                for i in (0, 1):
                    b = model.tiny_to(c[i], o['base'])
                    c[i] = model.NEG_YEAR if b == -127 else model.INF_TO if b == 126 else o['base'] + b
            l.append(tuple(c))
        out[symbol(n) if lang in ('arduino', 'c') else n] = l
    return out


def want_eras(X, lang):
    o = X.opts
    tiny = o['tiny'] and lang in ('arduino', 'c')
    out = {}
    for n, es in X.zones.items():
        l = []
        for e in es:
            c = list(model.canon_era(e))
            if lang in ('arduino', 'c') and c[1]:
                c[1] = symbol(c[1])
            if tiny:
                b = model.tiny_until(c[4], o['base'])
                c[4] = model.NEG_YEAR if b == -127 else model.INF_UNTIL if b == 127 else o['base'] + b
            l.append(tuple(c))
        out[n] = l
    return out


def cmp_list(rec, lang, what, name, got, want, fields):
    if len(got) != len(want) or (got != want and collections.Counter(got) == collections.Counter(want)):
        rec.add(what + 's:list', lang, '%s: got %s want %s' % (name, diff(got, want), diff(want, got)))
    if len(got) != len(want):
        return
    for i, (g, w) in enumerate(zip(got, want)):
        if g != w:
            for f, a, b in zip(fields, g, w):
                if a != b:
                    rec.add('%s:%s' % (what, f), lang, '%s[%d].%s is %r, expected %r' % (name, i, f, a, b))


def diff(a, b):
    c = collections.Counter(b)
    out = []
    for x in a:
        if c[x] > 0:
            c[x] -= 1
        else:
            out.append(x)
    return 'n=%d extra=%s' % (len(a), out[:3])


def cmp_set(rec, lang, what, got, want):
    got, want = set(got), set(want)
    if got != want:
        rec.add(what + ':set', lang, 'missing %s, unexpected %s' % (sorted(want - got)[:4], sorted(got - want)[:4]))


def cmp_records(rec, X, db, lang):
    cmp_set(rec, lang, 'zones', db['zones'], X.zones)
    cmp_set(rec, lang, 'links', db['links'], X.links)
    wp, we = want_policies(X, lang), want_eras(X, lang)
    cmp_set(rec, lang, 'policies', db['policies'], wp)
    for n, t in db['links'].items():
        if n in X.links and t != X.links[n]:
            rec.add('link-target', lang, '%s -> %s, expected %s' % (n, t, X.links[n]))
    for n, es in db['link_eras'].items():
        t = X.links.get(n)
        if t in we and list(es) != we[t]:
            rec.add('link-eras', lang, '%s: %s' % (n, diff(list(es), we[t])))
    for n, rs in db['policies'].items():
        rec.stats['rules'] += len(rs)
        if n in wp:
            if not rs or rs[0] != wp[n][0]:
                rec.add('anchor', lang, '%s: first rule %s, expected %s' % (n, rs[:1], wp[n][0]))
            cmp_list(rec, lang, 'rule', n, rs, wp[n], RULE_F)
    for n, es in db['zones'].items():
        rec.stats['eras'] += len(es)
        if n in we:
            cmp_list(rec, lang, 'era', n, es, we[n], ERA_F)
    rec.stats['zones'] += len(db['zones'])
    rec.stats['links'] += len(db['links'])
    # closure of references, independent of the expectation
    for n, es in db['zones'].items():
        for e in es:
            if e[1] is not None and e[1] not in db['policies']:
                rec.add('closure', lang, '%s: policy %s' % (n, e[1]))
    for n, t in db['links'].items():
        if t not in db['zones']:
            rec.add('closure', lang, '%s: target %s' % (n, t))


def cmp_ctx(rec, X, db, lang, case):
    o, c = X.opts, db['ctx']
    want = dict(start=o['start'], until=o['until'], start_acc=X.start_acc, until_acc=X.until_acc,
                tz_version=case.opts.get('tz_version', '2024b'))
    if lang in ('arduino', 'c', 'go'):
        want['max_transitions'] = X.max_buf
    if lang == 'arduino':
        want['base'] = o['base']
    for k, v in want.items():
        if c.get(k) != v:
            rec.add('ctx:' + k, lang, 'context %s is %r, expected %r' % (k, c.get(k), v))


def cmp_db(rec, case, X, db, lang):
    rec.stats['decoded:' + lang] += 1
    if lang == 'go':
        map_go_policies(rec, X, db)
    cmp_records(rec, X, db, lang)
    cmp_ctx(rec, X, db, lang, case)
    if case.localtime:
        localtime.compare(rec, rec.src, X, db, lang, db['ctx'], rec.memo)
    names = sorted(X.zones) + sorted(X.links)
    by_id = lambda l: sorted(l, key=lambda n: X.ids.get(n, 0))
    if lang == 'python':
        orders = (('registry', sorted(X.zones)), ('registry_all', sorted(names)))
    elif lang == 'go':
        orders = (('registry_all', by_id(names)),)
    else:
        orders = (('registry', by_id(X.zones)), ('registry_all', by_id(names)))
    for k, w in orders:
        if db[k] != w:
            kind = 'registry:set' if sorted(db[k]) != sorted(w) else 'registry:order'
            rec.add(kind, lang, '%s: %s' % (k, diff(db[k], w)))
    if lang != 'python':
        for n, i in db['ids'].items():
            if i != model.djb2(n) or i == 0:
                rec.add('ids', lang, '%s has id 0x%08x, expected 0x%08x' % (n, i, model.djb2(n)))
        if len(set(db['ids'].values())) != len(db['ids']):
            rec.add('ids', lang, 'duplicate ids')
    if lang in ('arduino', 'c'):
        # links carry no figure of their own
        want = {n: X.bufs[n][0] for n in X.zones}
        if db['bufs'] != want:
            rec.add('bufs', lang, 'buffer sizes differ: %s' % [(n, db['bufs'].get(n), want.get(n)) for n in
                    sorted(set(want) | set(db['bufs'])) if db['bufs'].get(n) != want.get(n)][:4])
        cmp_tables_cc(rec, X, db, lang)
    if lang == 'go':
        cmp_tables_go(rec, X, db)


def map_go_policies(rec, X, db):
    """The Go tables hold no policy names: find the assignment index -> name
    from the eras that refer to it; unreferenced ones by their rules."""
    pol = db['policies_by_index']
    m, clash = {}, []
    for n, es in db['zones'].items():
        for i, e in enumerate(es):
            if e[1] is not None and n in X.zones and i < len(X.zones[n]) and len(es) == len(X.zones[n]):
                p = X.zones[n][i]['policy']
                if p is None:
                    continue
                m.setdefault(e[1], collections.Counter())[p] += 1
    names = {}
    for i, c in m.items():
        names[i] = c.most_common(1)[0][0]
    taken = collections.Counter(names.values())
    for i in list(names):
        if taken[names[i]] > 1:      # two indexes for one name: keep the one whose rules agree
            want = [model.canon_rule(r) for r in X.policies[names[i]]]
            if pol[i] != want:
                clash.append(i)
    for i in clash:
        names[i] = '#%d' % i
    left = sorted(set(X.policies) - set(names.values()))
    for i in range(1, len(pol)):
        if i not in names:
            for n in left:
                if [model.canon_rule(r) for r in X.policies[n]] == pol[i]:
                    names[i] = n
                    left.remove(n)
                    break
            else:
                if left:
                    names[i] = left.pop(0)
                else:
                    names[i] = '#%d' % i
    db['policies'] = {names[i]: pol[i] for i in range(1, len(pol))}
    if len(set(names[i] for i in range(1, len(pol)))) != len(pol) - 1:
        rec.add('decode', 'go', 'policy indexes are not one-to-one')
    for es in db['zones'].values():
        es[:] = [e[:1] + ((names[e[1]] if isinstance(e[1], int) else e[1]),) + e[2:] for e in es]
    db['link_eras'] = {n: db['zones'][t] for n, t in db['links'].items()}


def cmp_tables_cc(rec, X, db, lang):
    o = X.opts
    letters = {r['letter'] for rs in X.policies.values() for r in rs} | {''}
    if len(set(db['letters'])) != len(db['letters']):
        rec.add('letters', lang, 'duplicate letters %s' % db['letters'][:10])
    if set(db['letters']) != letters:
        rec.add('letters', lang, 'letters %s, expected %s' % (sorted(db['letters'])[:9], sorted(letters)[:9]))
    names = list(X.zones) + list(X.links)
    fr = fragments(names) if o['compress'] else []
    if db['fragments'] != fr and sorted(db['fragments']) != fr:
        rec.add('fragments', lang, 'fragments %s, expected %s' % (db['fragments'][:6], fr[:6]))
    if len(db['fragments']) > 30:
        rec.add('fragments', lang, '%d fragments' % len(db['fragments']))
    for n, raw in db['raw_names'].items():
        if sorted(db['fragments']) == fr and raw != compress(n, db['fragments']):
            rec.add('compression', lang, '%r is stored as %r' % (n, raw))


def cmp_tables_go(rec, X, db):
    letters = {r['letter'] for rs in X.policies.values() for r in rs} | {''}
    fm = {model_format_go(e['format']) for es in X.zones.values() for e in es}
    names = set(X.zones) | set(X.links)
    for k, want, exact in (('letters', letters, True), ('formats', fm, False), ('names', names, True)):
        got = db[k]
        if len(set(got)) != len(got):
            rec.add(k, 'go', 'duplicate %s' % k)
        if not want <= set(got) or (exact and set(got) != want):
            rec.add(k, 'go', 'missing %s, unexpected %s' % (sorted(want - set(got))[:4], sorted(set(got) - want)[:4]))
    # formats: nothing but those used, the empty one, and the unexpanded %z
    extra = set(db['formats']) - fm - {'', '%z'}
    if extra:
        rec.add('formats', 'go', 'unexpected %s' % sorted(extra)[:4])
    n = len(X.zones) + len(X.links)
    want = dict(rules=sum(map(len, X.policies.values())), policies=len(X.policies) + 1,
                eras=sum(map(len, X.zones.values())), infos=n)
    for k, v in want.items():
        if db['counts'][k] != v:
            rec.add('counts', 'go', '%s count %d, expected %d' % (k, db['counts'][k], v))


def model_format_go(f):
    return '' if f == '%z' else f.replace('%s', '%')


# ---------------------------------------------------------------- texts
TEXT_FILES = {
    'python': ('zone_infos.py', 'zone_policies.py', 'zone_registry.py'),
    'arduino': ('zone_infos.h', 'zone_infos.cpp', 'zone_policies.h', 'zone_policies.cpp', 'zone_registry.h', 'zone_registry.cpp'),
    'c': ('zone_infos.h', 'zone_infos.c', 'zone_policies.h', 'zone_policies.c', 'zone_registry.h', 'zone_registry.c'),
    'go': ('zone_infos.go', 'zone_policies.go', 'zone_registry.go', 'zone_infos_test.go', 'zone_policies_test.go',
           'zone_registry_test.go', 'reader_test.go'),
}
SIZES = {
    ('low', 8): dict(context=16, rule=9, policy=3, era=11, info=13, pointer=2),
    ('low', 32): dict(context=24, rule=12, policy=8, era=16, info=24, pointer=4),
    ('high', 8): dict(context=16, rule=12, policy=3, era=15, info=13, pointer=2),
    ('high', 32): dict(context=24, rule=12, policy=8, era=20, info=24, pointer=4),
}


def sz(strings):
    return sum(len(s) + 1 for s in strings)


def memory(db, lang, scope):
    """Recomputed from the decoded tables."""
    nz, nl = len(db['zones']), len(db['links'])
    nr = sum(map(len, db['policies'].values()))
    ne = sum(map(len, db['zones'].values()))
    out = {}
    if lang == 'go':
        b = db['bytes']
        m = dict(Rules=b['rules'], Policies=b['policies'], Eras=b['eras'], Zones=12 * nz, Links=12 * nl, Registry=0, Fragments=0,
                 Names=db['sizes']['names'][0] + 2 * db['sizes']['names'][1],
                 Formats=db['sizes']['formats'][0] + 2 * db['sizes']['formats'][1],
                 Letters=db['sizes']['letters'][0] + db['sizes']['letters'][1])
        m['TOTAL'] = sum(m.values())
        return {'Memory/' + k: str(v) for k, v in m.items()}
    for bits in (8, 32):
        s = SIZES['high' if scope == 'complete' else 'low', bits]
        m = dict(Context=s['context'], Rules=s['rule'] * nr, Policies=s['policy'] * len(db['policies']), Eras=s['era'] * ne,
                 Zones=s['info'] * nz, Links=s['info'] * nl, Registry=(nz + nl) * s['pointer'],
                 Formats=sz({f for f in db['formats']}), Letters=sz(db['letters']) + len(db['letters']) * s['pointer'],
                 Fragments=sz(db['fragments']) + len(db['fragments']) * s['pointer'], Names=sz(db['raw_names'].values()))
        m['TOTAL'] = sum(m.values())
        for k, v in m.items():
            out['Memory (%d-bits)/%s' % (bits, k)] = str(v) + (' (original: %d)' % sz(db['raw_names']) if k == 'Names' else '')
    return out


def header_want(case, X, db, lang):
    o = X.opts
    nz, nl = len(db['zones']), len(db['links'])
    rz, rl = len(X.removed_zones), len(X.removed_links)
    w = {'version': case.opts.get('tz_version', '2024b'),
         'Supported Zones': '%d (%d zones, %d links)' % (nz + nl, nz, nl),
         'Unsupported Zones': '%d (%d zones, %d links)' % (rz + rl, rz, rl),
         'Requested Years': '[%d,%d]' % (o['start'], o['until']), 'Accurate Years': '[%d,%d]' % (X.start_acc, X.until_acc),
         'Original Years': '[%d,%d]' % X.original_years, 'Generated Years': '[%d,%d]' % X.generated_years,
         'Lower/Upper Truncated': '[%s,%s]' % (X.lower, X.upper),
         'Records/Infos': str(nz + nl), 'Records/Eras': str(sum(map(len, db['zones'].values()))),
         'Records/Policies': str(len(db['policies'])), 'Records/Rules': str(sum(map(len, db['policies'].values())))}
    if lang != 'python':
        w['Estimator Years'] = '[%d,%d]' % X.est
        w['Max Buffer Size'] = str(X.max_buf)
        w.update(memory(db, lang, o['scope']))
    return w


def flat(d):
    return {n: (set(r) if not isinstance(r, tuple) else set(r[0]), {p: set(x) for p, x in r[1].items()} if isinstance(r, tuple) else {})
            for n, r in d.items()}


def cmp_reasons(rec, surface, key, got, want):
    """got/want: {name: (set, {policy: set})}"""
    tag = '%s-%s' % key
    if set(got) != set(want):
        rec.add(tag + ':names', surface, 'missing %s, unexpected %s' % (sorted(set(want) - set(got))[:4], sorted(set(got) - set(want))[:4]))
    for n in set(got) & set(want):
        if got[n] != want[n]:
            rec.add(tag + ':reasons', surface, '%s: %s, expected %s' % (n, got[n], want[n]))
        if key[0] == 'removed' and not got[n][0]:
            rec.add(tag + ':empty', surface, n)


def want_reasons(X):
    return {('removed', 'zones'): flat(X.removed_zones), ('removed', 'links'): flat(X.removed_links),
            ('removed', 'policies'): flat(X.removed_policies), ('notable', 'zones'): flat(X.merged),
            ('notable', 'links'): flat(X.notable_links), ('notable', 'policies'): flat(X.notable_policies)}


def cmp_texts(rec, case, X, db, lang, out):
    want = header_want(case, X, db, lang)
    reasons = want_reasons(X)
    seen = set()
    nz, nl, npol = len(db['zones']), len(db['links']), len(db['policies'])
    eras = [len(e) for e in db['zones'].values()]
    rules = [len(r) for r in db['policies'].values()]
    for f in TEXT_FILES[lang]:
        with open(os.path.join(out, f), encoding='utf-8') as h:
            t = h.read()
        s = '%s:%s' % (lang, f)
        hd = texts.header(t)
        for k, v in want.items():
            if hd.get(k) != v:
                if k in ('Estimator Years', 'Max Buffer Size'):
                    rec.add('header:buf', s, '%s is %r, expected %r' % (k, hd.get(k), v))
                elif k.startswith('Memory'):
                    rec.add('header:memory', s, '%s is %r, expected %r' % (k, hd.get(k), v))
                else:
                    rec.add('header:' + k, s, '%s is %r, expected %r' % (k, hd.get(k), v))
        rec.stats['header fields'] += len(want)
        for key, (n, entries) in texts.comment_sections(t).items():
            seen.add(key)
            rec.stats['comment entries'] += len(entries)
            if n != len(entries):
                rec.add('section-count', s, '%s: heading says %d, %d listed' % (key, n, len(entries)))
            for name, (rs, ps) in entries.items():
                if len(set(rs)) != len(rs):
                    rec.add('%s-%s:reasons' % key, s, '%s: repeated reason %s' % (name, rs))
            cmp_reasons(rec, s, key, {n: (set(r), {p: set(x) for p, x in ps.items()}) for n, (r, ps) in entries.items()}, reasons[key])
        for label, vals in texts.counts(t).items():
            cmp_count(rec, s, label, vals, nz, nl, npol, eras, rules, X)
    for key in reasons:
        if key not in seen:
            rec.add('section-missing', lang, '%s %s' % key)


def cmp_count(rec, s, label, vals, nz, nl, npol, eras, rules, X):
    single = {'Zones': nz, 'Links': nl, 'Policies': npol, 'Supported zones': nz, 'Supported Zones': nz, 'Supported links': nl,
              'Supported eras': sum(eras), 'numEras': sum(eras), 'numRules': sum(rules), 'Supported zone policies': npol,
              'Supported policies': npol, 'MaxBufSize': X.max_buf, 'Supported Zones and Links': nz + nl, 'Total': nz + nl}
    many = {'Eras': eras, 'Zone Eras': eras, 'Era count': eras, 'EraCount': eras, 'Rules': rules, 'Rule count': rules, 'RuleCount': rules}
    vs = [v[0] for v in vals]
    rec.stats['section counts'] += 1
    if None in vs:
        if label in single or label in many:
            rec.add('section-count', s, '%s: no figure' % label)
        return
    if label in single and label not in many:
        if any(v != single[label] for v in vs):
            rec.add('section-count', s, '%s: %s, expected %d' % (label, vs[:3], single[label]))
        for v in vals:
            if len(v) == 3 and v[1:] != (nz, nl):
                rec.add('section-count', s, '%s: (%d zones, %d links), expected %d and %d' % ((label,) + v[1:] + (nz, nl)))
    elif label in many:
        w = many[label]
        if sorted(vs) not in (sorted(w), sorted(w + [sum(w)]), [sum(w)]):
            rec.add('section-count', s, '%s: %d figures, sum %d; expected %d, sum %d' % (label, len(vs), sum(vs), len(w), sum(w)))


def finish_go(case, rec, db):
    X = rec.X
    if isinstance(db, DecodeError):
        rec.add('decode', 'go', db)
        return
    guard(rec, 'go', lambda: cmp_db(rec, case, X, db, 'go'))
    guard(rec, 'go', lambda: cmp_texts(rec, case, X, db, 'go', rec.go_dir))


# ---------------------------------------------------------------- JSON, zone list
def cmp_json(rec, X, case, langs, path):
    need(os.path.exists(path), 'no JSON file')
    o = X.opts
    with open(path, encoding='utf-8') as f:
        text = f.read()
    def pairs(p):
        d = dict(p)
        need(len(d) == len(p), 'duplicate key in JSON object')
        return d
    try:
        j = json.loads(text, object_pairs_hook=pairs, parse_constant=lambda c: need(False, 'JSON constant ' + c))
    except ValueError as e:
        raise DecodeError('not JSON: %s' % e)
    db = {'zones': {}, 'policies': {}, 'links': dict(j['links_map']), 'link_eras': {}}
    for n, z in j['zones_map'].items():
        db['zones'][n] = [(e['offset_seconds_truncated'], e['policy_name'], e['era_delta_seconds_truncated'], e['format'],
                           e['until_year'], e['until_month'], e['until_day'], e['until_seconds_truncated'],
                           e['until_time_suffix']) for e in z['eras']]
        if n in X.zone_flags and (z['lower_zone_truncated'], z['upper_zone_truncated']) != X.zone_flags[n]:
            rec.add('flags', 'json', '%s: truncated %s, expected %s' % (n, (z['lower_zone_truncated'], z['upper_zone_truncated']), X.zone_flags[n]))
    for n, p in j['policies_map'].items():
        db['policies'][n] = [(r['from_year'], r['to_year'], r['in_month'], r['on_day_of_week'], r['on_day_of_month'],
                              r['at_seconds_truncated'], r['at_time_suffix'], r['delta_seconds_truncated'], r['letter'])
                             for r in p['rules']]
    rec.stats['decoded:json'] += 1
    cmp_records(rec, X, db, 'json')
    want = dict(num_zones=len(X.zones), num_links=len(X.links), num_policies=len(X.policies),
                num_eras=sum(map(len, X.zones.values())), num_rules=sum(map(len, X.policies.values())))
    ctx = dict(tz_version=case.opts.get('tz_version', '2024b'), scope=o['scope'], start_year=o['start'], until_year=o['until'],
               until_at_granularity=o['ua'], offset_granularity=o['off'], delta_granularity=o['de'], strict=o['strict'],
               compress=o['compress'], original_min_year=X.original_years[0], original_max_year=X.original_years[1],
               generated_min_year=X.generated_years[0], generated_max_year=X.generated_years[1], lower_truncated=X.lower,
               upper_truncated=X.upper, start_year_accurate=X.start_acc, until_year_accurate=X.until_acc)
    for k, v in want.items():
        if j.get(k) != v:
            rec.add('json:count', 'json', '%s is %r, expected %r' % (k, j.get(k), v))
    for k, v in ctx.items():
        if j.get(k) != v or type(j.get(k)) is not type(v):
            rec.add('json:' + k, 'json', '%s is %r, expected %r' % (k, j.get(k), v))
    v = ctx['tz_version']
    if len(v) == 5 and v[:4].isdigit() and v[4] in 'abcdefghijklmnopqrstuvwxyz':
        n = (int(v[:4]) - 2000) * 100 + ord(v[4]) - 96
        if j.get('tz_version_number') != n:
            rec.add('json:tz_version_number', 'json', '%r for %s' % (j.get('tz_version_number'), v))
    bufs = {n: tuple(b) for n, b in j['buf_sizes'].items()}
    if bufs != X.bufs and (case.opts.get('estimate') or bufs):
        rec.add('bufs', 'json', 'buf_sizes: %s' % [(n, bufs.get(n), X.bufs.get(n)) for n in sorted(set(bufs) | set(X.bufs))
                if bufs.get(n) != X.bufs.get(n)][:4])
    if j['max_buf_size'] != X.max_buf or (j['estimator_min_year'], j['estimator_max_year']) != X.est:
        rec.add('bufs', 'json', 'max %s years %s..%s, expected %s %s' % (j['max_buf_size'], j['estimator_min_year'],
                j['estimator_max_year'], X.max_buf, X.est))
    ids = dict(j['zone_ids'])
    ids.update(j['link_ids'])
    if ids != X.ids or set(j['zone_ids']) != set(X.zones):
        rec.add('ids', 'json', 'zone_ids/link_ids: %s' % [(n, ids.get(n), X.ids.get(n)) for n in sorted(set(ids) | set(X.ids))
                if ids.get(n) != X.ids.get(n)][:4])
    w = want_reasons(X)
    w[('notable', 'merged')] = w[('notable', 'zones')]
    w[('notable', 'zones')] = flat(X.notable_zones)
    for k, key in (('removed_zones', ('removed', 'zones')), ('removed_links', ('removed', 'links')),
                   ('removed_policies', ('removed', 'policies')), ('notable_zones', ('notable', 'zones')),
                   ('merged_notable_zones', ('notable', 'merged')), ('notable_links', ('notable', 'links')),
                   ('notable_policies', ('notable', 'policies'))):
        got = {}
        for n, rs in j[k].items():
            a, ps = set(), {}
            for r in rs:
                if isinstance(r, dict):
                    for p, x in r.items():
                        ps[p] = set(x)
                else:
                    a.add(r)
            got[n] = (a, ps)
        cmp_reasons(rec, 'json', key, got, w[key])
        rec.stats['json reasons'] += len(got)
    ztp = {}
    for n, es in X.zones.items():
        ps = sorted({e['policy'] for e in es if e['policy']})
        if ps:
            ztp[n] = ps
    got = {n: sorted(set(p)) for n, p in j['zones_to_policies'].items() if n in X.zones and p}
    if got != ztp:
        rec.add('json:zones_to_policies', 'json', [(n, got.get(n), ztp.get(n)) for n in sorted(set(got) | set(ztp)) if got.get(n) != ztp.get(n)][:4])
    cmp_json_derived(rec, X, j, langs)
    cmp_json_tables(rec, X, j, langs)


SUFFIX = {'w': 0, 's': 16, 'u': 32}


def cmp_json_derived(rec, X, j, langs):
    """The other fields of the records, where the dump has them: exact values
    before truncation, the strings they came from, one-byte years, and the codes
    that the generated files hold (each joined back to the value it stands for)."""
    o = X.opts
    low = o['scope'] != 'complete'
    cc = 'arduino' in langs or 'c' in langs

    def same(where, d, k, v):
        if k in d and d[k] != v:
            rec.add('json:field', 'json', '%s: %s is %r, expected %r' % (where, k, d[k], v))
        rec.stats['json fields'] += k in d

    def joined(where, d, a, ka, b, kb, v):
        if a in d and b in d and d[a] * ka + d[b] * kb != v:
            rec.add('json:field', 'json', '%s: %s, %s are %r, %r for %r' % (where, a, b, d[a], d[b], v))
        rec.stats['json fields'] += a in d and b in d

    def time(where, d, v, suf, fields):
        """code, remainder, modifier for each of the encodings present."""
        for code, rem, mod, unit, small in fields:
            joined(where, d, code, unit, rem, small, v)
            if rem in d and mod in d and d[mod] != SUFFIX[suf] + d[rem]:
                rec.add('json:field', 'json', '%s: %s is %r with %r remaining, suffix %s' % (where, mod, d[mod], d[rem], suf))

    letters = {}
    for n, p in j['policies_map'].items():
        want = X.policies.get(n)
        if want is None or len(want) != len(p['rules']):
            continue
        for i, (g, w) in enumerate(zip(p['rules'], want)):
            at = '%s[%d]' % (n, i)
            same(at, g, 'at_seconds', w['at_exact'])
            same(at, g, 'delta_seconds', w['save_exact'])
            if o['tiny']:
                same(at, g, 'from_year_tiny', model.tiny_to(w['frm'], o['base']))
                same(at, g, 'to_year_tiny', model.tiny_to(w['to'], o['base']))
            for k, v in (('at_time', w['at_exact']), ('delta_offset', w['save_exact'])):
                if isinstance(g.get(k), str) and not w.get('anchor'):
                    same(at, {k: model.secs(g[k])}, k, v)
            time(at, g, w['at'], w['suf'], (('at_time_code', 'at_time_minute', 'at_time_modifier', 900, 60),
                 ('at_time_seconds_code', 'at_time_seconds_remainder', 'at_time_seconds_modifier', 15, 1),
                 ('go_at_seconds_code', 'go_at_seconds_remainder', 'go_at_seconds_modifier', 15, 1)))
            if low and cc:
                same(at, g, 'delta_code', w['save'] // 900)
                same(at, g, 'delta_code_encoded', w['save'] // 900 + 4)
            for k in ('delta_minutes', 'go_delta_minutes'):
                same(at, g, k, w['save'] // 60)
            if 'letter_index' in g and letters.setdefault(g['letter_index'], w['letter']) != w['letter']:
                rec.add('json:field', 'json', '%s: letter_index %r' % (at, g['letter_index']))
    for n, z in j['zones_map'].items():
        want = X.zones.get(n)
        if want is None or len(want) != len(z['eras']):
            continue
        for i, (g, w) in enumerate(zip(z['eras'], want)):
            at = '%s[%d]' % (n, i)
            same(at, g, 'offset_seconds', w['off_exact'])
            same(at, g, 'era_delta_seconds', w['delta_exact'])
            same(at, g, 'until_seconds', w['until_exact'])
            for k, v in (('offset_string', w['off_exact']), ('until_time', w['until_exact'])):
                if isinstance(g.get(k), str):
                    same(at, {k: model.secs(g[k])}, k, v)
            if o['tiny']:
                same(at, g, 'until_year_tiny', model.tiny_until(w['until_y'], o['base']))
            time(at, g, w['until'], w['suf'], (('until_time_code', 'until_time_minute', 'until_time_modifier', 900, 60),
                 ('until_time_seconds_code', 'until_time_seconds_remainder', 'until_time_seconds_modifier', 15, 1),
                 ('go_until_seconds_code', 'go_until_seconds_remainder', 'go_until_seconds_modifier', 15, 1)))
            joined(at, g, 'offset_code', 900, 'offset_minute', 60, w['off'])
            joined(at, g, 'offset_seconds_code', 15, 'offset_seconds_remainder', 1, w['off'])
            joined(at, g, 'go_offset_seconds_code', 15, 'go_offset_seconds_remainder', 1, w['off'])
            if low and cc:
                same(at, g, 'delta_code', w['delta'] // 900)
                if 'offset_minute' in g:
                    same(at, g, 'delta_code_encoded', g['offset_minute'] * 16 + w['delta'] // 900 + 4)
            for k in ('delta_minutes', 'go_era_delta_minutes'):
                same(at, g, k, w['delta'] // 60)
    if 'go' in langs:
        ids = sorted(X.ids, key=X.ids.get)
        same('dump', j, 'go_zone_and_link_index_map', {n: i for i, n in enumerate(ids)})
        for k, what in (('go_policy_index_size_map', X.policies), ('go_info_index_size_map', X.zones)):
            spans = sorted(tuple(v[1:]) for n, v in j.get(k, {}).items() if n)
            at = 0
            for off, size in spans:
                if off != at:
                    rec.add('json:field', 'json', '%s has a gap at %d' % (k, at))
                    break
                at += size
            if k in j and {n: v[2] for n, v in j[k].items() if n} != {n: len(v) for n, v in what.items()}:
                rec.add('json:field', 'json', '%s: sizes %s' % (k, list(j[k].items())[:5]))


def cmp_json_tables(rec, X, j, langs):
    o = X.opts
    names = list(X.zones) + list(X.links)
    letters = sorted({r['letter'] for rs in X.policies.values() for r in rs} | {''})
    if 'arduino' in langs or 'c' in langs:
        fr = fragments(names) if o['compress'] else []
        if j['letters_map'] != {l: i for i, l in enumerate(letters)}:
            rec.add('letters', 'json', j['letters_map'])
        fs = sorted({model_format_go(e['format']) for es in X.zones.values() for e in es})
        if j['formats_map'] != {l: i for i, l in enumerate(fs)}:
            rec.add('formats', 'json', j['formats_map'])
        if j['fragments_map'] != {f: i + 1 for i, f in enumerate(fr)}:
            rec.add('fragments', 'json', j['fragments_map'])
        w = {n: compress(n, fr) for n in names} if o['compress'] else {}
        if j['compressed_names'] != w:
            rec.add('compression', 'json', [(n, j['compressed_names'].get(n), w.get(n)) for n in sorted(set(w) | set(j['compressed_names']))
                                            if j['compressed_names'].get(n) != w.get(n)][:4])
        fake = dict(zones=X.zones, links=X.links, policies=X.policies, formats=set(fs), letters=letters, fragments=fr,
                    raw_names=w or {n: n for n in names})
        m = memory(fake, 'arduino', o['scope'])
        for bits in (8, 32):
            for k, v in m.items():
                if k.startswith('Memory (%d' % bits):
                    f = k.split('/')[1].lower()
                    if str(j['memory_map%d' % bits].get(f)) != v.split()[0]:
                        rec.add('header:memory', 'json', 'memory_map%d %s is %r, expected %s' % (bits, f, j['memory_map%d' % bits].get(f), v))
    if 'go' in langs:
        for k, ss in (('go_letters_map', letters), ('go_names_map', sorted(names))):
            off, w = 0, {}
            for i, s in enumerate(ss):
                w[s] = [i, off]
                off += len(s)
            got = {s: v for s, v in j[k].items() if s != '~'}
            if got != w:
                rec.add('letters' if 'letter' in k else 'names', 'json', '%s %s' % (k, [x for x in sorted(w) if got.get(x) != w[x]][:4]))


def cmp_zonelist(rec, X, case, path):
    need(os.path.exists(path), 'no zones.txt')
    with open(path, encoding='utf-8') as f:
        z = texts.zonelist(f.read())
    rec.stats['decoded:zonelist'] += 1
    if z['names'] != sorted(X.zones):
        rec.add('zonelist', 'zonelist', diff(z['names'], sorted(X.zones)) + ' missing ' + str(sorted(set(X.zones) - set(z['names']))[:4]))
    if z['count'] != len(X.zones):
        rec.add('zonelist', 'zonelist', 'numZones %s, expected %d' % (z['count'], len(X.zones)))
    if z['version'] != case.opts.get('tz_version', '2024b'):
        rec.add('zonelist', 'zonelist', 'version %s' % z['version'])
    if not z['ends']:
        rec.add('zonelist', 'zonelist', 'no end of line')


# ---------------------------------------------------------------- many cases
def run_cases(cases, scratch, procs=None):
    """-> list of Rec, Go packages decoded in batches."""
    jobs = []
    for i, c in enumerate(cases):
        d = os.path.join(scratch, 'k%d' % i)
        os.makedirs(d)
        jobs.append((c, d))
    recs = run.pmap(observe, jobs, procs)
    todo = {i: r.go_dir for i, r in enumerate(recs) if r.go_dir}
    if todo:
        keys = list(todo)
        nb = 2 if len(keys) > 12 else 1
        per = math.ceil(len(keys) / nb)
        parts = [keys[a:a + per] for a in range(0, len(keys), per)]

        def one(ks):
            try:
                return decode_go.decode_many({k: todo[k] for k in ks},
                                             {k: cases[k].opts.get('db_namespace', 'zonedb') for k in ks})
            except ToolError as e:
                return {k: e for k in ks}
        import threading
        res, th = {}, []
        for p in parts:
            t = threading.Thread(target=lambda p=p: res.update(one(p)))
            t.start()
            th.append(t)
        for t in th:
            t.join()
        for k in keys:
            db = res.get(k)
            if isinstance(db, ToolError) or db is None:
                recs[k].inconclusive.append('go: %s' % db)
            else:
                finish_go(cases[k], recs[k], db)
    return recs
