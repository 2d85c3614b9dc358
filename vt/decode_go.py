"""Compile many generated Go packages in one scratch module, let one program
dump every constant and record, and decode the binary tables."""
import os
import re
import shutil
import struct
import tempfile

from .decode_py import DecodeError, need
from .decode_cc import ToolError, sh, suffix, dec_format
from .model import symbol
from . import run

FILES = ['zone_infos.go', 'zone_policies.go', 'zone_registry.go', 'zone_infos_test.go', 'zone_policies_test.go',
         'zone_registry_test.go', 'reader_test.go']
MOD = 'github.com/bxparks/acetimego'


def decode_many(dirs, ns):
    """dirs: {key: out_dir}; ns: {key: package name}.  Returns {key: db or
    DecodeError}."""
    res = {}
    if not dirs:
        return res
    base = os.path.dirname(next(iter(dirs.values())))
    root = tempfile.mkdtemp(prefix='vtgo.', dir=base)
    try:
        env = dict(os.environ, GOCACHE=os.path.join(root, 'cache'), GOFLAGS='-mod=mod', GOPROXY='off', GOSUMDB='off',
                   GOTOOLCHAIN='local', CGO_ENABLED='0', GO111MODULE='on', GOPATH=os.path.join(root, 'gopath'),
                   HOME=root, GOENV='off', GOTELEMETRY='off')
        mod = os.path.join(root, 'm')
        shutil.copytree(os.path.join(run.STUBS, 'go', 'zoneinfo'), os.path.join(mod, 'zoneinfo'))
        shutil.copytree(os.path.join(run.STUBS, 'go', 'internal'), os.path.join(mod, 'internal'))
        with open(os.path.join(mod, 'go.mod'), 'w') as f:
            f.write('module %s\n\ngo 1.21\n' % MOD)
        keys, texts = {}, {}
        for i, (k, d) in enumerate(dirs.items()):
            try:
                pk = os.path.join(mod, 'g%d' % i)
                os.makedirs(pk)
                t = texts[k] = {}
                for n in FILES:
                    need(os.path.exists(os.path.join(d, n)), 'missing ' + n)
                    with open(os.path.join(d, n), encoding='utf-8') as f:
                        t[n] = f.read()
                    m = re.search(r'(?m)^package\s+(\S+)', t[n])
                    need(m and m[1] == ns[k], '%s: package %s, wanted %s' % (n, m and m[1], ns[k]))
                    shutil.copy(os.path.join(d, n), pk)
                keys['g%d' % i] = k
            except DecodeError as e:
                res[k] = e
                shutil.rmtree(pk)
        # 1. everything, test files included, type-checks
        r = sh(['go', 'vet', '-assign', './...'], mod, 600, env)
        bad = {}
        for l in r.stderr.split('\n'):
            m = re.search(r'\b(g\d+)/(\S+\.go:\d+.*)', l)
            if m and m[1] in keys:
                bad.setdefault(m[1], m[2])
        if r.returncode and not bad:
            raise ToolError('go vet: ' + r.stderr[:500])
        for g, msg in bad.items():
            res[keys.pop(g)] = DecodeError('go package does not compile: ' + msg[:300])
            shutil.rmtree(os.path.join(mod, g))
        if not keys:
            return res
        # 2. test files become part of the package; one program dumps all
        o = ['package main\nimport (\n"testing"\n']
        o += ['%s "%s/%s"\n' % (g, MOD, g) for g in keys]
        o.append(')\nfunc main() {\n')
        for g, k in keys.items():
            for n in FILES[3:6]:
                os.rename(os.path.join(mod, g, n), os.path.join(mod, g, n[:-8] + '_vt.go'))
            os.rename(os.path.join(mod, g, FILES[6]), os.path.join(mod, g, 'reader_vt.go'))
            o.append('f_%s()\n' % g)
        o.append('os_flush()\n}\n')
        for g, k in keys.items():
            o.append('func f_%s() {\ndump("%s", &%s.DataContext, &%s.RecordContext)\n' % (g, g, g, g))
            for pat, tag in ((r'(?m)^\s*(ZoneID(\w+))\s+uint32\s*=', 'zi'), (r'(?m)^\s*(ZoneInfoIndex(\w+))\s+uint16\s*=', 'zx')):
                for n in ('zone_registry.go', 'zone_registry_test.go', 'zone_infos.go'):
                    for s, x in re.findall(pat, texts[k][n]):
                        o.append('c("%s","%s",int64(%s.%s))\n' % (tag, x, g, s))
            tests = re.findall(r'(?m)^func (Test\w+)\(\w+ \*testing\.T\)', ''.join(texts[k][n] for n in FILES if n.endswith('_test.go')))
            o.append('selftest(&%s.DataContext, &%s.RecordContext, []func(*testing.T){%s})\n}\n' % (g, g, ', '.join('%s.%s' % (g, x) for x in tests)))
        os.makedirs(os.path.join(mod, 'cmd'))
        with open(os.path.join(mod, 'cmd', 'main.go'), 'w') as f:
            f.write(''.join(o))
        with open(os.path.join(run.STUBS, 'go', 'dump.go.txt')) as f, open(os.path.join(mod, 'cmd', 'dump.go'), 'w') as h:
            h.write(f.read() + '\nfunc os_flush() { os.Stdout.Write(out) }\n')
        r = sh(['go', 'build', '-o', 'vt', './cmd'], mod, 600, env)
        if r.returncode:
            raise ToolError('go build: ' + r.stderr[:800])
        r = sh([os.path.join(mod, 'vt')], mod, 120, env)
        if r.returncode:
            raise ToolError('go program: ' + r.stderr[:800])
        cur = None
        out = {}
        for l in r.stdout.split('\n'):
            if l.startswith('PKG '):
                cur = out[l[4:]] = []
            elif l:
                cur.append(l.split(' '))
        for g, k in keys.items():
            try:
                res[k] = canon(out[g], texts[k])
            except DecodeError as e:
                res[k] = e
        return res
    finally:
        shutil.rmtree(root, ignore_errors=True)


def canon(lines, texts):
    selftest = []
    L, rec, consts = {}, {'r': [], 'p': [], 'e': [], 'i': []}, {'zi': {}, 'zx': {}}
    for t in lines:
        if t[0] in rec:
            rec[t[0]].append(tuple(map(int, t[1:])))
        elif t[0] in consts:
            need(t[1] not in consts[t[0]], 'constant %s twice' % t[1])
            consts[t[0]][t[1]] = int(t[2])
        elif t[0] == 'ST':
            selftest.append(tuple(t[1:]))
        else:
            L[t[0]] = t[1:]
    b = lambda s: bytes.fromhex(s.strip('"'))
    if ('panic',) not in selftest:
        need(all(x[1] == 'same' for x in selftest) and {x[0] for x in selftest} == {'infos', 'eras', 'policies', 'rules'},
             'the self-test compares %s' % sorted(set(selftest)))
    need(L['DC'] == L['RC'], 'DataContext %s differs from RecordContext %s' % (L['DC'], L['RC']))
    db = {'lang': 'go', 'policies': {}, 'zones': {}, 'links': {}, 'link_eras': {}, 'ids': {}, 'texts': texts}
    db['ctx'] = dict(zip(('start', 'until', 'start_acc', 'until_acc', 'max_transitions'), map(int, L['DC'][1:])))
    db['ctx']['tz_version'] = b(L['DC'][0]).decode()
    ch = list(map(int, L['CH']))
    need(ch[:4] == [12, 4, 14, 12], 'chunk sizes %s' % ch[:4])
    db['counts'] = dict(zip(('rules', 'policies', 'eras', 'infos'), ch[4:]))

    def table(tag, what):
        d, d2 = L[tag + 'D']
        need(d == d2 and L[tag + 'O'] == L[tag + 'R'], what + ' table of DataContext and RecordContext differ')
        d, offs = b(d), list(map(int, L[tag + 'O']))
        need(len(offs) >= 1 and offs == sorted(offs) and offs[0] == 0 and offs[-1] <= len(d), what + ' offsets %s' % offs[:5])
        return d, offs, [d[i:j].decode('utf-8', 'replace') for i, j in zip(offs, offs[1:])]
    _, _, letters = table('L', 'letter')
    _, _, formats = table('F', 'format')
    _, _, names = table('N', 'name')
    db['letters'], db['formats'], db['names'] = letters, formats, names
    db['sizes'] = {k: (len(b(L[t + 'D'][0])), len(L[t + 'O'])) for k, t in (('letters', 'L'), ('formats', 'F'), ('names', 'N'))}

    def chunks(tag, n, fmt, what):
        d = b(L[tag][0])
        sz = struct.calcsize(fmt)
        need(len(d) == n * sz, '%s data is %d bytes, count %d' % (what, len(d), n))
        db.setdefault('bytes', {})[what] = len(d)
        return list(struct.iter_unpack(fmt, d))
    raw = {'r': chunks('BR', ch[4], '<hhBBbBHbB', 'rules'), 'p': chunks('BP', ch[5], '<HH', 'policies'),
           'e': chunks('BE', ch[6], '<HBBhhbBBBH', 'eras'), 'i': chunks('BI', ch[7], '<IHHHH', 'infos')}
    for k, w in (('r', 'ZoneRule'), ('p', 'ZonePolicy'), ('e', 'ZoneEra'), ('i', 'ZoneInfo')):
        if raw[k] != rec[k]:
            i = next((i for i, (x, y) in enumerate(zip(raw[k], rec[k])) if x != y), 'length')
            raise DecodeError('%sData differs from %sRecords at %s' % (w, w, i))

    def pick(t, i, what):
        need(i < len(t), '%s index %d of %d' % (what, i, len(t)))
        return t[i]
    rules = []
    for fy, ty, mo, dow, dom, mod, code, delta, li in raw['r']:
        need(mod & 15 < 15, 'remainder')
        rules.append((fy, ty, mo, dow, dom, code * 15 + (mod & 15), suffix(mod), delta * 60, pick(letters, li, 'letter')))
    need(raw['p'] and raw['p'][0] == (0, 0), 'policy 0 is not the null policy')
    pos, pol = 0, []
    for i, (ri, rc) in enumerate(raw['p']):
        need(ri + rc <= len(rules), 'policy %d covers rules %d+%d of %d' % (i, ri, rc, len(rules)))
        need(i == 0 or ri == pos, 'policy %d starts at rule %d, not %d' % (i, ri, pos))
        pos += rc
        pol.append(rules[ri:ri + rc])
    need(pos == len(rules), 'rules not covered by policies')
    db['policies_by_index'] = pol
    eras = []
    for fi, pi, rem, code, uy, delta, um, ud, mod, uc in raw['e']:
        need(rem < 15 and mod & 15 < 15, 'remainder')
        need(pi < len(pol), 'policy index %d of %d' % (pi, len(pol)))
        eras.append((code * 15 + rem, pi or None, delta * 60, dec_format(pick(formats, fi, 'format')), uy, um, ud,
                     uc * 15 + (mod & 15), suffix(mod)))
    infos = []
    last, covered = -1, {}
    for i, (zid, ni, ei, ec, ti) in enumerate(raw['i']):
        need(zid > last, 'infos not sorted by id at %d' % i)
        last = zid
        n = pick(names, ni, 'name')
        need(n not in db['ids'], 'name %s twice' % n)
        db['ids'][n] = zid
        infos.append(n)
    db['order'] = infos
    for i, (zid, ni, ei, ec, ti) in enumerate(raw['i']):
        n = infos[i]
        if ec:
            need(ei + ec <= len(eras), '%s: eras %d+%d of %d' % (n, ei, ec, len(eras)))
            need(ti == 0, 'zone %s has a target' % n)
            db['zones'][n] = eras[ei:ei + ec]
            for j in range(ei, ei + ec):
                need(j not in covered, 'era %d belongs to %s and %s' % (j, covered.get(j), n))
                covered[j] = n
        else:
            need(ei == 0, 'link %s has an era index' % n)
            need(ti < len(infos), '%s: target %d of %d' % (n, ti, len(infos)))
            need(raw['i'][ti][3] > 0, 'target of %s is a link' % n)
            db['links'][n] = infos[ti]
    need(len(covered) == len(eras), 'eras not covered by zones')
    for n, t in db['links'].items():
        db['link_eras'][n] = db['zones'][t]
    by_sym = {symbol(n): n for n in db['ids']}
    need({by_sym.get(s, '?' + s): v for s, v in consts['zi'].items()} == db['ids'], 'ZoneID constants differ from the records')
    need({by_sym.get(s, '?' + s): v for s, v in consts['zx'].items()} == {n: i for i, n in enumerate(infos)},
         'ZoneInfoIndex constants differ from the record positions')
    db['registry_all'] = infos
    return db


def name_policies(db, expected_names):
    """The Go tables hold no policy names: policies are numbered in the order
    of their sorted names."""
    names = sorted(expected_names)
    pol = db['policies_by_index']
    need(len(pol) == len(names) + 1, '%d policies, wanted %d' % (len(pol) - 1, len(names)))
    db['policies'] = {n: pol[i + 1] for i, n in enumerate(names)}
    for es in db['zones'].values():
        es[:] = [e[:1] + ((names[e[1] - 1] if isinstance(e[1], int) else e[1]),) + e[2:] for e in es]
    return db
