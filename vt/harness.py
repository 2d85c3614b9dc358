"""Checks that compare executions with each other rather than with the model:
determinism and independence (P19), the shell scripts (P29), options (P30),
failing reads and writes (P31)."""
import hashlib
import os
import random
import re
import resource
import shutil
import signal
import subprocess
import sys

from . import engine, gen, model, run, work
from .engine import TEXT_FILES


class Res:
    """What one scenario showed."""
    def __init__(self, name, spec):
        self.name, self.spec = name, spec
        self.bad, self.n, self.stats, self.inconclusive, self.samples = [], 0, {}, [], []

    def check(self, ok, aspect, detail):
        self.n += 1
        self.stats[aspect] = self.stats.get(aspect, 0) + 1
        if not ok and len([1 for a, _ in self.bad if a == aspect]) < 3:
            self.bad.append((aspect, str(detail)[:700]))
        return ok


def tree(d):
    """{relative path: digest} of everything below d."""
    out = {}
    for p, ds, fs in os.walk(d):
        for n in ds:
            q = os.path.join(p, n)
            out[os.path.relpath(q, d) + '/'] = 'link' if os.path.islink(q) else 'dir'
        for n in fs:
            q = os.path.join(p, n)
            if os.path.islink(q):
                out[os.path.relpath(q, d)] = 'link ' + os.readlink(q)
            else:
                with open(q, 'rb') as h:
                    out[os.path.relpath(q, d)] = hashlib.sha256(h.read()).hexdigest()
    return out


def content(d, deep=False):
    out = {}
    for n in sorted(run.tree(d)) if deep else sorted(os.listdir(d)):
        if os.path.isfile(os.path.join(d, n)):
            with open(os.path.join(d, n), 'rb') as h:
                out[n] = h.read()
    return out


def delta(a, b):
    return {'missing': sorted(set(a) - set(b))[:5], 'new': sorted(set(b) - set(a))[:5], 'changed': sorted(k for k in set(a) & set(b) if a[k] != b[k])[:5]}


def first_diff(a, b):
    la, lb = a.split(b'\n'), b.split(b'\n')
    for i, (x, y) in enumerate(zip(la, lb)):
        if x != y:
            return 'line %d: %r / %r' % (i + 1, x[:160], y[:160])
    return '%d / %d lines' % (len(la), len(lb))


PYTHON = '/opt/venv/bin/python3' if os.access('/opt/venv/bin/python3', os.X_OK) else sys.executable


def proc(argv, cwd, env=None, user=None, timeout=300, fsize=None, signals=False):
    e = {'PATH': os.path.dirname(PYTHON) + ':' + os.environ.get('PATH', '/usr/bin:/bin'), 'PYTHONPATH': os.path.join(run.REPO, 'src') + ':' + run.STUBS, 'PYTHONDONTWRITEBYTECODE': '1', 'HOME': cwd, 'LC_ALL': 'C.UTF-8'}
    e.update(env or {})
    kw = {}
    if user is not None:
        kw = dict(user=user, group=user, extra_groups=[])
    if signals:
        # whatever the caller ignores
        kw['preexec_fn'] = lambda: [signal.signal(x, signal.SIG_DFL) for x in (signal.SIGINT, signal.SIGTERM, signal.SIGHUP, signal.SIGQUIT)]
    if fsize is not None:
        kw['preexec_fn'] = lambda: resource.setrlimit(resource.RLIMIT_FSIZE, (fsize, fsize))
    p = subprocess.Popen(argv, cwd=cwd, env=e, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, start_new_session=True, **kw)
    try:
        out, _ = p.communicate(timeout=timeout)
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, signal.SIGKILL)
        p.communicate()
        return None, ''
    return p.returncode, out.decode('utf-8', 'replace')


CMD = [PYTHON, run.SCRIPT]


# ---------------------------------------------------------------- P19
def strip_command(data, argv):
    """Forget the recorded command line (whatever its layout)."""
    t = data.decode('utf-8', 'surrogateescape')
    gap = r'[\s#/*\\]+'
    words = [w for a in argv for w in a.split() if w]
    return re.sub(r'[^\s]*tzcompiler(?:\.py)?' + gap + gap.join(re.escape(w) for w in words), '<cmd>', t)


def p19_specs(rng, tier):
    k = 1 if tier == 'quick' else 10
    out = []
    for i in range(20 * k):
        c = work.general(work.sub(rng), 'det%d' % i, strict=None if i % 2 else False, noalign=.05 if i % 3 == 0 else 0, n_zone=(3, 14), n_link=(1, 8), gran=.3)
        if i % 4 == 0 and isinstance(c.src, dict):
            names = list(model.read_source(c.src)['zones']) + list(model.read_source(c.src)['links'])
            c.include = sorted(rng.sample(names, max(1, len(names) * 2 // 3)))
            # keep link targets
            src = model.read_source(c.src)
            c.include = sorted(set(c.include) | {src['links'][n] for n in c.include if n in src['links']})
        out.append(dict(case=c.to_json(), seed=rng.getrandbits(32)))
    for w, o in rng.sample(work.REAL_OPTS, 2 if tier == 'quick' else len(work.REAL_OPTS)):
        out.append(dict(case=engine.Case('det-real', w, o).to_json(), seed=rng.getrandbits(32)))
    return out


def p19_one(args):
    spec, root = args
    case = engine.Case.from_json(spec['case'])
    rng = random.Random(spec['seed'])
    r = Res(case.name, spec)
    t, src = engine.source(case)
    X, fail = engine.expectation(case, src)
    o = dict(case.opts)
    faults = {l: engine.lang_faults(X, l) for l in ('python', 'arduino', 'c', 'go')} if X else {}
    if X is None or not X.zones:
        langs = ['python']
    else:
        langs = [l for l in ('python', 'arduino', 'go') if not faults[l]]
        if not faults['c']:
            langs.append('c')
    acts = ['zonedb', 'json', 'zonelist']
    main = [l for l in langs if l != 'c']

    def mk(tag):
        d = os.path.join(root, tag)
        os.makedirs(d)
        engine.write_texts(t, os.path.join(d, 'in'))
        os.makedirs(os.path.join(d, 'out'))
        oo = dict(o)
        if case.include is not None:
            oo['include_list'] = 'include'
            # the same list in any order
            l = list(case.include)
            engine.write_include(l, os.path.join(d, 'include'))
        return d, oo

    def args_for(oo, ls, ac):
        return run.cli_args(dict(oo, languages=','.join(ls), actions=','.join(ac)), 'in', 'out')

    def go(tag, ls, ac, env=None, prefill=None, fresh=True, again=None):
        if again:
            d, oo = again
        else:
            d, oo = mk(tag)
        out = os.path.join(d, 'out')
        if prefill:
            for n, b in prefill.items():
                with open(os.path.join(out, n), 'wb') as h:
                    h.write(b)
        a = args_for(oo, ls, ac)
        if fresh:
            rc, text = proc(CMD + a, d, dict(case.env, **(env or {})))
            if rc is None:
                r.inconclusive.append('timeout')
                return None
            ok = rc == 0
        else:
            ob = run.run_cli(a, out, env=case.env, cwd=d)
            if ob.kind in ('timeout', 'crash'):
                r.inconclusive.append(ob.kind)
                return None
            ok, text = ob.ok, '%s %s' % (ob.etype, ob.emsg)
        return ok, content(out), text, d, oo, (a, fresh)

    def same(name, aspect, a, b, only=None):
        if a is None or b is None:
            return
        if not r.check(a[0] == b[0], aspect, '%s: one run %s, the other %s (%s)' % (name, 'succeeds' if a[0] else 'fails', 'succeeds' if b[0] else 'fails', (a if not a[0] else b)[2][-300:])):
            return
        fa, fb = a[1], b[1]
        if only is not None:
            fa, fb = ({n: v for n, v in f.items() if n in only} for f in (fa, fb))
            if not r.check(set(fa) == set(only) == set(fb), aspect, '%s: files %s / %s, expected %s' % (name, sorted(fa), sorted(fb), sorted(only))):
                return
            ca, cb = (recorded(x) for x in (a, b))
            fa = {n: strip_command(v, ca).encode('utf-8', 'surrogateescape') for n, v in fa.items()}
            fb = {n: strip_command(v, cb).encode('utf-8', 'surrogateescape') for n, v in fb.items()}
        r.check(set(fa) == set(fb), aspect, '%s: files %s' % (name, delta(fa, fb)))
        for n in set(fa) & set(fb):
            r.check(fa[n] == fb[n], aspect, '%s: %s differs at %s' % (name, n, first_diff(fa[n], fb[n]) if fa[n] != fb[n] else ''))

    def recorded(x):
        return x[5][0]

    base = go('base', main or ['python'], acts if main else acts[1:], env={'PYTHONHASHSEED': '0'})
    if base is None:
        return r
    r.samples.append('%s: %d files, %d bytes' % (case.name, len(base[1]), sum(map(len, base[1].values()))))
    if not main:
        main = ['python']
        acts2 = acts[1:]
    else:
        acts2 = acts
    envs = [{'PYTHONHASHSEED': '1'}, {'PYTHONHASHSEED': str(rng.randint(2, 4294967295))}, {'PYTHONHASHSEED': str(rng.randint(2, 4294967295)), 'TZ': 'Asia/Tokyo', 'LC_ALL': 'C', 'LANG': 'de_DE', 'COLUMNS': '20'}]
    for i, e in enumerate(envs):
        same('hash seed %s' % e, 'repeat', base, go('env%d' % i, main, acts2, env=e))
    # a directory holding the files of other runs, some longer, some shorter
    pre = {n: (v * 2 + b'zz\n' if rng.random() < .5 else b'x') for n, v in base[1].items()}
    same('directory with old files', 'directory', base, go('pre', main, acts2, env={'PYTHONHASHSEED': '5'}, prefill=pre))
    # over its own output
    b2 = go('own', main, acts2, env={'PYTHONHASHSEED': '6'})
    if b2:
        same('second run in place', 'directory', base, go('own', main, acts2, env={'PYTHONHASHSEED': '7'}, again=(b2[3], b2[4])))
    # subsets of languages and of actions; the recorded command line aside
    if base[0] and acts2 == acts:
        jn = o.get('json_file', 'zonedb.json')
        for l in langs:
            al = go('only-' + l, [l], ['zonedb'], fresh=False)
            if l != 'c':
                same('%s alone' % l, 'independence', base, al, only=TEXT_FILES[l])
                if len(main) > 1:
                    ls = rng.sample(main, rng.randint(1, len(main)))
                    if l not in ls:
                        ls.append(l)
                    rng.shuffle(ls)
                    ac = ['zonedb'] + rng.sample(['json', 'zonelist'], rng.randint(0, 2))
                    rng.shuffle(ac)
                    same('%s with %s %s' % (l, ls, ac), 'independence', base, go('sub-' + l, ls, ac, fresh=False), only=TEXT_FILES[l])
            else:
                ls = ['c'] + [x for x in main if x != 'arduino']
                same('c with %s' % ls, 'independence', al, go('with-c', ls, acts, fresh=False), only=TEXT_FILES['c'])
        same('zone list alone', 'independence', base, go('zl', [rng.choice(langs)], ['zonelist'], fresh=False), only=('zones.txt',))
        # same languages: the JSON does not depend on the other actions
        same('json alone', 'independence', base, go('js', main, ['json'], fresh=False), only=(jn,))
    return r


# ---------------------------------------------------------------- P29
ZONE_FILES = list(model.ZONE_FILES)
NOBODY = 65534


def chown(d):
    for p, ds, fs in os.walk(d):
        os.chown(p, NOBODY, NOBODY)
        for n in fs:
            os.chown(os.path.join(p, n), NOBODY, NOBODY, follow_symlinks=False)


class Repo:
    """A scratch TZ repository with two tags and a dirty working tree."""
    def __init__(self, root, rng, name='tz repo'):
        self.root, self.rng = root, rng
        self.path = os.path.join(root, name)
        self.versions = {}
        os.makedirs(self.path)
        shutil.copytree(os.path.join(run.REPO, 'src'), os.path.join(root, 'tools', 'src'), ignore=shutil.ignore_patterns('__pycache__', '*.egg-info'))
        for s in ('copytz.sh', 'tzcompiler.sh'):
            shutil.copy2(os.path.join(run.REPO, s), os.path.join(root, 'tools', s))
        shutil.copytree(run.STUBS, os.path.join(root, 'stubs'), ignore=shutil.ignore_patterns('__pycache__'))
        for p, ds, fs in os.walk(os.path.join(root, 'tools')):
            os.chmod(p, 0o755)
            for f in fs:
                q = os.path.join(p, f)
                os.chmod(q, (os.stat(q).st_mode | 0o444) & 0o777)
        for p, ds, fs in os.walk(os.path.join(root, 'stubs')):
            os.chmod(p, 0o755)
            for f in fs:
                os.chmod(os.path.join(p, f), 0o644)
        os.chmod(root, 0o755)
        self.git('init', '-q', '-b', 'main')
        for tag in ('2023c', '2025b-rg.1', '2024a', None):
            t = self.texts(tag or 'HEAD')
            for f, s in t.items():
                self.put(f, s)
            for f, s in (('Makefile', 'all:\n'), ('zic.c', 'int main(){}\n'), ('version', '%s\n' % tag), ('NEWS', str(rng.random())), ('leapseconds', 'x\n'),
                         ('factory', '# Zone\n'), ('etcetera.bak', 'Zone Etc/Bad 1 - X\n'), ('africa2', 'x'), ('sub/asia', 'x\n'), ('europe.d/x', 'y'), ('tz file.h', ' ')):
                self.put(f, s)
            if tag:
                self.git('add', '-A')
                self.git('-c', 'user.name=a', '-c', 'user.email=a@b', 'commit', '-q', '-m', tag)
                self.git('tag', tag) if tag == '2023c' else self.git('-c', 'user.name=a', '-c', 'user.email=a@b', 'tag', '-a', '-m', 'x', tag)
            self.versions[tag] = t
        self.git('branch', 'other', '2023c')
        chown(root)
        # the tools and stubs stay out of reach of the scripts under test
        for d in ('tools', 'stubs'):
            for p, ds, fs in os.walk(os.path.join(root, d)):
                os.chown(p, 0, 0)
                for n in fs:
                    os.chown(os.path.join(p, n), 0, 0)

    def put(self, f, s):
        p = os.path.join(self.path, f)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        with open(p, 'w', encoding='utf-8') as h:
            h.write(s)

    def texts(self, tag):
        t = {f: '# %s %s\n' % (f, tag) for f in ZONE_FILES}
        c = work.general(work.sub(self.rng), 'x', scope='complete', strict=False)
        t.update({f: s for f, s in c.src.items()})
        n = 'Version/' + (tag or 'HEAD')
        t['backward'] = t.get('backward', '') + '\nZone %s 1:00 - %sX\n' % (n, tag)
        self.opts = c.opts
        for f in ZONE_FILES:
            t[f] = t.get(f) or '# %s %s\n' % (f, tag)
        return t

    def git(self, *a):
        subprocess.run(['git', '-c', 'safe.directory=*'] + list(a), cwd=self.path, check=True, capture_output=True, env={'PATH': os.environ['PATH'], 'HOME': self.root, 'GIT_CONFIG_NOSYSTEM': '1'})

    def snapshot(self):
        s = tree(self.path)
        return {k: v for k, v in s.items() if not k.startswith('.git/') or re.match(r'\.git/(HEAD|refs/|packed-refs|config)', k)}

    def sh(self, script, *a, cwd, shadow=None, env_more=None):
        env = {'PYTHONPATH': os.path.join(self.root, 'tools', 'src') + ':' + os.path.join(self.root, 'stubs'), 'HOME': self.root, 'GIT_CONFIG_NOSYSTEM': '1'}
        # variables of the caller that happen to have names the scripts use
        env.update({n: os.path.join(self.root, 'elsewhere') for n in ('TZFILES', 'OUTPUT_DIR', 'src', 'dst', 'tzrepo', 'input_dir', 'output_dir')})
        env.update(tag='2023c', TAG='2023c', tz_version='1999z', TZ_VERSION='1999z', cleanup='0', usage='x', DIRNAME='/nonexistent')
        env.update(env_more or {})
        if shadow:
            env['PATH'] = shadow + ':' + os.path.dirname(PYTHON) + ':' + os.environ.get('PATH', '/usr/bin:/bin')
        return proc([os.path.join(self.root, 'tools', script)] + list(a), cwd, env, user=NOBODY, signals=True)


def p29_specs(rng, tier):
    k = 4 if tier == 'quick' else 40
    return [dict(seed=rng.getrandbits(32), kind=kd, repo=rng.choice(['tz', 'tz repo', "it's $HOME", 'tz-[x]'])) for _ in range(k) for kd in ('copytz', 'copytz', 'compile', 'compile', 'compile-fail', 'compile-fail')]


def p29_one(args):
    spec, root = args
    rng = random.Random(spec['seed'])
    r = Res(spec['kind'], spec)
    rp = Repo(root, rng, spec['repo'])
    before = rp.snapshot()
    outside = tree(os.path.join(root, 'tools'))
    cwd = os.path.join(root, rng.choice(['work', 'work dir', 'a;b', 'w*']))
    os.makedirs(cwd)
    for n in ('keep.txt', 'africa', 'Makefile', 'version.txt', 'dir/x', '.hidden', 'tzfiles.bak', 'tzfiles2/africa', 'mytzfiles/x', 'tz'):
        p = os.path.join(cwd, n)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        with open(p, 'w') as h:
            h.write('mine ' + n)
    chown(cwd)
    mine = tree(cwd)
    {'copytz': p29_copytz, 'compile': p29_compile, 'compile-fail': p29_fail}[spec['kind']](r, rp, rng, cwd, mine)
    r.check(rp.snapshot() == before, 'source untouched', delta(before, rp.snapshot()))
    r.check(tree(os.path.join(root, 'tools')) == outside, 'tools untouched', '')
    r.samples.append('%s in %r' % (spec['kind'], os.path.basename(cwd)))
    return r


def src_forms(rp, cwd, rng):
    return rng.choice([rp.path, os.path.relpath(rp.path, cwd), rp.path + '/'])


def p29_copytz(r, rp, rng, cwd, mine):
    for i, tag in enumerate(['2023c', '2024a', None, 'other', rng.choice(['2025b-rg.1', '2024a'])]):
        name = ['t1', 'target dir', "q'x", 'nested/t', 'abs'][i]
        dst = os.path.join(cwd, name)
        if '/' in name:
            os.makedirs(os.path.dirname(dst), exist_ok=True)
            os.chown(os.path.dirname(dst), NOBODY, NOBODY)
        arg = dst if i in (1, 4) else name
        rc, out = rp.sh('copytz.sh', *((['--tag', tag] if tag else []) + [src_forms(rp, cwd, rng), arg]), cwd=cwd)
        if rc is None:
            r.inconclusive.append('timeout')
            return
        if not r.check(rc == 0, 'copy succeeds', '%s %s: exit %s %s' % (tag, name, rc, out[-300:])):
            continue
        want = dict(rp.versions['2023c' if tag == 'other' else tag], **{'version.txt': (tag or '') + '\n'})
        got = {n: b.decode('utf-8', 'replace') for n, b in content(dst).items() if not n.startswith('.')}
        r.check(got == want, 'copied version', '%s: %s' % (tag, delta(want, got)))
        r.check([n for n in os.listdir(dst) if os.path.isdir(os.path.join(dst, n)) and n != '.git'] == [], 'clutter removed', os.listdir(dst))
        # a second copy on top of it is refused
        snap = tree(dst)
        rc, out = rp.sh('copytz.sh', *((['--tag', '2024a'] if rng.random() < .5 else []) + [rp.path, arg]), cwd=cwd)
        r.check(rc != 0, 'existing target refused', 'exit %s' % rc)
        r.check(tree(dst) == snap, 'existing target untouched', delta(snap, tree(dst)))
        shutil.rmtree(dst)
    # directories that have the name of the target, where an exported CDPATH leads
    other = os.path.join(rp.root, 'other place')
    for n in ('t8', 't8/sub', 'tz'):
        os.makedirs(os.path.join(other, n), exist_ok=True)
        for f in ('mine', 'africa', 'version.txt'):
            open(os.path.join(other, n, f), 'w').write('precious')
    chown(other)
    snap, dst = tree(other), os.path.join(cwd, 't8')
    for tag in (None, '2023c'):
        rc, out = rp.sh('copytz.sh', *((['--tag', tag] if tag else []) + [src_forms(rp, cwd, rng), rng.choice(['t8', 't8', './t8'])]), cwd=cwd, env_more={'CDPATH': rng.choice([other, other + ':.', rp.root + ':' + other])})
        r.check(tree(other) == snap, 'other files untouched', 'CDPATH: %s' % delta(snap, tree(other)))
        if r.check(rc == 0, 'copy succeeds', 'CDPATH: exit %s %s' % (rc, out[-300:])):
            want = dict(rp.versions[tag], **{'version.txt': (tag or '') + '\n'})
            got = {n: b.decode('utf-8', 'replace') for n, b in content(dst).items() if not n.startswith('.')}
            r.check(got == want, 'copied version', 'CDPATH %s: %s' % (tag, delta(want, got)))
        if os.path.isdir(dst):
            shutil.rmtree(dst)
        shutil.rmtree(other) if tag else None
    for kind in ('empty', 'file', 'full', 'dangling', 'link'):
        dst = os.path.join(cwd, 'old')
        if kind == 'file':
            open(dst, 'w').write('old')
        elif kind in ('dangling', 'link'):
            os.symlink('nowhere' if kind == 'dangling' else 'dir', dst)
        else:
            os.makedirs(dst)
            if kind == 'full':
                open(os.path.join(dst, 'mine'), 'w').write('m')
                open(os.path.join(dst, 'africa'), 'w').write('m')
            os.chown(dst, NOBODY, NOBODY)
        snap = tree(cwd)
        for tg in ([], ['--tag', '2023c'], ['--tag', 'nosuch']):
            rc, out = rp.sh('copytz.sh', *(tg + [rp.path, rng.choice(['old', dst])]), cwd=cwd)
            r.check(rc != 0, 'existing target refused', '%s %s: exit %s' % (kind, tg, rc))
            r.check(tree(cwd) == snap, 'existing target untouched', '%s %s: %s' % (kind, tg, delta(snap, tree(cwd))))
        if kind in ('file', 'dangling', 'link'):
            os.unlink(dst)
        else:
            shutil.rmtree(dst)
    for a in (['--tag', 'nosuch', rp.path, 'n1'], [rp.path], [], ['--bogus', rp.path, 'n2'], [rp.path, 'n3', 'n4'], ['--tag', '2024a', rp.path], [os.path.join(rp.root, 'nowhere'), 'n5'],
              ['--tag', '2024a', os.path.join(rp.root, 'nowhere'), 'n6']):
        rc, out = rp.sh('copytz.sh', *a, cwd=cwd)
        r.check(rc != 0, 'bad request refused', '%s: exit %s' % (a, rc))
        for n in list(os.listdir(cwd)):
            if re.match(r'n\d$', n) and not os.listdir(os.path.join(cwd, n)):
                os.rmdir(os.path.join(cwd, n))
    for name, tool, body in (('clone fails late', 'git', '"%s" "$@"; exit 9'), ('clone killed', 'git', '"%s" "$@"; kill -9 $$'), ('copy fails late', 'cp', '"%s" "$@"; exit 9'), ('copy killed', 'cp', 'kill -9 $$'),
                             ('removal fails', 'rm', '"%s" "$@"; exit 1')):
        sd = shadow(rp, name, tool, body % shutil.which(tool) if '%s' in body else body)
        rc, out = rp.sh('copytz.sh', *((['--tag', '2024a'] if tool == 'git' else []) + [rp.path, 'n7']), cwd=cwd, shadow=sd)
        if os.path.exists(os.path.join(sd, 'used')):
            r.check(rc != 0, 'failure reported', '%s: exit %s' % (name, rc))
        if os.path.isdir(os.path.join(cwd, 'n7')):
            shutil.rmtree(os.path.join(cwd, 'n7'))
    if os.path.isdir(os.path.join(cwd, 'nested')):
        shutil.rmtree(os.path.join(cwd, 'nested'))
    r.check(tree(cwd) == mine, 'other files untouched', delta(mine, tree(cwd)))


def direct(rp, rng, tag, opts, sub):
    """The same compilation without the wrapper."""
    d = os.path.join(rp.root, sub)
    os.makedirs(os.path.join(d, 'out'))
    engine.write_texts(rp.versions[tag], os.path.join(d, 'in'))
    a = run.cli_args(dict(opts), os.path.join(d, 'in'), os.path.join(d, 'out'))
    rc, out = proc(CMD + a, d)
    return rc, content(os.path.join(d, 'out')), out, a


def p29_compile(r, rp, rng, cwd, mine):
    n = 0
    for tag in (rng.choice(['2023c', '2024a']), None, rng.choice(['2023c', '2025b-rg.1', '2025b-rg.1'])):
        n += 1
        o = dict(scope='complete', start_year=rng.choice([1900, 1990, 2000]), until_year=rng.choice([2010, 2050]), strict=False, db_namespace='zdb', tz_version=tag or 'HEAD',
                 languages=rng.choice(['python', 'go', 'c', 'arduino', 'python,go']), actions=rng.choice(['zonedb', 'zonedb,json', 'zonelist,zonedb,json']), json_file=rng.choice(['zonedb.json', 'my zones.json', 'x;y.json', '$HOME.json']))
        rc0, want, out0, a0 = direct(rp, rng, tag, o, 'direct%d' % n)
        if rc0 != 0:
            if rc0 is None:
                r.inconclusive.append('timeout')
            continue
        py = run.cli_args(dict(o), 'I', 'O')
        py = [x for i, x in enumerate(py) if x not in ('--input_dir', '--output_dir', '--tz_version') and (i == 0 or py[i - 1] not in ('--input_dir', '--output_dir', '--tz_version'))]
        keep = rng.random() < .3
        a = (['--tag', tag] if tag else []) + ['--tzrepo', src_forms(rp, cwd, rng)]
        if rng.random() < .5:
            a = ['--tzrepo', a[-1]] + a[:-2]
        if keep:
            a.append('--nocleanup')
        rc, out = rp.sh('tzcompiler.sh', *(a + py), cwd=cwd)
        if rc is None:
            r.inconclusive.append('timeout')
            return
        if not r.check(rc == 0, 'compile succeeds', '%s: exit %s %s' % (a + py, rc, out[-400:])):
            return
        tz = os.path.join(cwd, 'tzfiles')
        r.check(os.path.isdir(tz) == keep, 'temporary directory', 'tzfiles %s, nocleanup %s' % (os.path.exists(tz), keep))
        if keep and os.path.isdir(tz):
            got = {x: b.decode('utf-8', 'replace') for x, b in content(tz).items() if not x.startswith('.')}
            got.pop('version.txt', None)
            r.check(got == rp.versions[tag], 'compiled version', delta(rp.versions[tag], got))
            snap = tree(cwd)
            rc, out = rp.sh('tzcompiler.sh', *([x for x in a if x != '--nocleanup'] + py), cwd=cwd)
            r.check(rc != 0, 'existing tzfiles refused', 'exit %s' % rc)
            r.check(tree(cwd) == snap, 'existing tzfiles untouched', delta(snap, tree(cwd)))
            shutil.rmtree(tz)
        now = content(cwd)
        r.check(set(now) - {k for k in mine if '/' not in k} == set(want), 'compiled files', 'got %s, expected %s' % (sorted(now), sorted(want)))
        wrapped = ['--input_dir', os.path.join(cwd, 'tzfiles'), '--output_dir', cwd, '--tz_version', tag or 'HEAD'] + py
        for f in want:
            if f in now:
                x, y = strip_command(want[f], a0), strip_command(now[f], wrapped)
                r.check(x == y, 'compiled content', '%s %s: %s' % (tag, f, first_diff(x.encode('utf-8', 'replace'), y.encode('utf-8', 'replace')) if x != y else ''))
                os.unlink(os.path.join(cwd, f))
        r.check(tree(cwd) == mine, 'other files untouched', delta(mine, tree(cwd)))


def shadow(rp, name, tool, body):
    """A directory for the front of PATH in which one tool misbehaves."""
    sd = os.path.join(rp.root, 'shadow-' + name.replace(' ', '-'))
    os.makedirs(sd)
    with open(os.path.join(sd, tool), 'w') as h:
        h.write('#!/bin/sh\n: > "%s/used"\n%s\n' % (sd, body))
    os.chmod(os.path.join(sd, tool), 0o755)
    os.chown(sd, NOBODY, NOBODY)
    return sd


def p29_fail(r, rp, rng, cwd, mine):
    ok = ['--scope', 'complete', '--languages', 'python', '--actions', 'zonedb']
    for name, a in (('bad scope', ['--scope', 'nosuch']), ('bad year', ['--scope', 'basic', '--start_year', '1900', '--languages', 'python', '--actions', 'zonedb']),
                    ('no options', []), ('unknown option', ok + ['--nosuch']), ('bad action', ok[:-1] + ['zap']), ('bad language', ['--scope', 'complete', '--languages', 'cobol', '--actions', 'zonedb'])):
        t = rng.choice([[], ['--tag', '2023c'], ['--tag', '2024a']])
        rc, out = rp.sh('tzcompiler.sh', *(t + ['--tzrepo', src_forms(rp, cwd, rng)] + a), cwd=cwd)
        if rc is None:
            r.inconclusive.append('timeout')
            return
        r.check(rc != 0, 'failure reported', '%s: exit %s' % (name, rc))
        r.check(tree(cwd) == mine, 'cleanup after failure', '%s: %s' % (name, delta(mine, tree(cwd))))
    for name, a in (('unknown tag', ['--tag', 'nosuch', '--tzrepo', rp.path] + ok), ('no repo', ok), ('missing repo', ['--tzrepo', os.path.join(rp.root, 'nowhere')] + ok),
                    ('missing repo, tag', ['--tag', '2024a', '--tzrepo', os.path.join(rp.root, 'nowhere')] + ok)):
        rc, out = rp.sh('tzcompiler.sh', *a, cwd=cwd)
        r.check(rc != 0, 'failure reported', '%s: exit %s' % (name, rc))
        r.check(tree(cwd) == mine, 'cleanup after failure', '%s: %s' % (name, delta(mine, tree(cwd))))
    # a source the compiler rejects
    with open(os.path.join(rp.path, 'backward'), 'a') as h:
        h.write('Zone Dup/A-B 1:00 - X\nZone Dup/A_B 1:00 - X\n')
    rc, out = rp.sh('tzcompiler.sh', *(['--tzrepo', rp.path] + ok), cwd=cwd)
    r.check(rc != 0, 'failure reported', 'bad source: exit %s' % rc)
    r.check(tree(cwd) == mine, 'cleanup after failure', 'bad source: %s' % delta(mine, tree(cwd)))
    with open(os.path.join(rp.path, 'backward'), 'w') as h:
        h.write(rp.versions[None]['backward'])
    # the compiler, git or cp fails in the middle
    real = {'git': shutil.which('git'), 'cp': shutil.which('cp'), 'python3': PYTHON}
    for name, tool, body in (('compiler exits 3', 'python3', 'exit 3'), ('compiler killed', 'python3', 'kill -9 $$'), ('compiler terminated', 'python3', 'kill -TERM $$'),
                             ('compiler fails late', 'python3', '"%s" "$@" >/dev/null 2>&1; exit 9' % real['python3']),
                             ('clone fails late', 'git', '"%s" "$@"; exit 9' % real['git']), ('clone killed', 'git', '"%s" "$@"; kill -9 $$' % real['git']),
                             ('copy fails late', 'cp', '"%s" "$@"; exit 9' % real['cp']),
                             ('interrupted while compiling', 'python3', 'kill -INT 0; kill -INT $$'), ('terminated while compiling', 'python3', 'kill -TERM 0; sleep 9'),
                             ('hung up while compiling', 'python3', 'kill -HUP 0; sleep 9'), ('terminated while copying', 'cp', '"%s" "$@"; kill -TERM 0; sleep 9' % real['cp']),
                             ('terminated while cloning', 'git', '"%s" "$@"; kill -TERM 0; sleep 9' % real['git'])):
        sd = shadow(rp, name, tool, body)
        t = ['--tag', '2024a'] if tool == 'git' else [] if tool == 'cp' else rng.choice([[], ['--tag', '2023c']])
        # bash itself now and then (once in a few thousand interrupts) dies in the middle of
        # its exit trap; a script that does not clean up fails every time
        for attempt in range(4 if 'kill -' in body else 1):
            rc, out = rp.sh('tzcompiler.sh', *(t + ['--tzrepo', rp.path] + ok), cwd=cwd, shadow=sd)
            if rc is None:
                r.inconclusive.append('timeout')
                return
            used = os.path.exists(os.path.join(sd, 'used'))
            for f in TEXT_FILES['python']:
                if (name == 'compiler fails late' or not used) and os.path.exists(os.path.join(cwd, f)):
                    os.unlink(os.path.join(cwd, f))
            left = tree(cwd)
            if os.path.isdir(os.path.join(cwd, 'tzfiles')):
                shutil.rmtree(os.path.join(cwd, 'tzfiles'))
            if left == mine or tree(cwd) != mine:
                break
        if used:
            r.check(rc != 0, 'failure reported', '%s: exit %s' % (name, rc))
        r.check(left == mine, 'cleanup after failure', '%s: %s' % (name, delta(mine, left)))
    # tzfiles of somebody else
    tz = os.path.join(cwd, 'tzfiles')
    for kind in ('dir', 'empty', 'file', 'dangling', 'link'):
        if kind == 'file':
            open(tz, 'w').write('precious')
        elif kind in ('dangling', 'link'):
            os.symlink('nowhere' if kind == 'dangling' else 'dir', tz)
        else:
            os.makedirs(tz)
            if kind == 'dir':
                open(os.path.join(tz, 'africa'), 'w').write('precious')
        if kind in ('dir', 'empty'):
            os.chown(tz, NOBODY, NOBODY)
        snap = tree(cwd)
        for t in ([], ['--tag', '2024a'], ['--tag', 'nosuch']):
            rc, out = rp.sh('tzcompiler.sh', *(t + ['--tzrepo', rp.path] + ok), cwd=cwd)
            r.check(rc != 0, 'existing tzfiles refused', '%s %s: exit %s' % (kind, t, rc))
            r.check(tree(cwd) == snap, 'existing tzfiles untouched', '%s %s: %s' % (kind, t, delta(snap, tree(cwd))))
        if kind in ('file', 'dangling', 'link'):
            if os.path.lexists(tz):
                os.unlink(tz)
        elif os.path.exists(tz):
            shutil.rmtree(tz)


# ---------------------------------------------------------------- P30
DEFAULTS = dict(start_year=2000, until_year=2100, tiny_base_year=2100, strict=True, compress=True, json_file='zonedb.json')
GRANS = {'basic': (60, 60, 900), 'extended': (60, 60, 900), 'complete': (1, 1, 60)}


def p30_specs(rng, tier):
    k = 4 if tier == 'quick' else 40
    out = []
    for i in range(8 * k):
        def make(rg):
            sc = ['basic', 'extended', 'complete'][i % 3]
            return work.general(rg, 'opt', scope=sc, strict=True, gran=0, estimate=0, valid=False, noalign=rg.choice([0, .1]) if sc == 'basic' else 0,
                                window=(2000, 2100), years=(1960, 2150))
        def make2(rg):
            c = make(rg)
            c.opts.update(start_year=2000, until_year=2100, tiny_base_year=2100, estimate=True)
            return c
        c = work.attempt(rng, make2, tries=30, ok=lambda X: all(not engine.lang_faults(X, l) for l in ('python', 'arduino', 'c', 'go')))
        out.append(dict(case=c.to_json(), seed=rng.getrandbits(32)))
    return out


def p30_one(args):
    spec, root = args
    case = engine.Case.from_json(spec['case'])
    rng = random.Random(spec['seed'])
    r = Res('options', spec)
    t, src = engine.source(case)
    case.opts = dict(scope=case.opts['scope'], start_year=2000, until_year=2100, tiny_base_year=2100, estimate=True)
    X, fail = engine.expectation(case, src)
    if fail or not X.zones or any(engine.lang_faults(X, l) for l in ('python', 'arduino', 'c', 'go')):
        r.stats['unsuitable source'] = 1
        return r
    sc = case.opts['scope']
    ind = os.path.join(root, 'in')
    engine.write_texts(t, ind)
    cnt = [0]

    def go(args, jn=''):
        cnt[0] += 1
        d = os.path.join(root, 'c%d' % cnt[0])
        os.makedirs(os.path.join(d, 'out', os.path.dirname(jn)))
        ob = run.run_cli(args, os.path.join(d, 'out'), cwd=d)
        if ob.kind in ('timeout', 'crash'):
            r.inconclusive.append(ob.kind)
        return ob, d

    req = ['--scope', sc, '--input_dir', ind, '--tz_version', '2024b', '--db_namespace', 'zdb']
    full = ['--start_year', '2000', '--until_year', '2100', '--tiny_base_year', '2100', '--strict', '--compress']

    def files(langs, acts, jn='zonedb.json'):
        w = set()
        if 'zonedb' in acts:
            for l in langs:
                w |= set(TEXT_FILES[l])
        if 'json' in acts:
            w.add(jn)
        if 'zonelist' in acts:
            w.add('zones.txt')
        return w

    def rest(d, argv):
        return {n: strip_command(b, argv) for n, b in content(d, os.path.basename(d) == 'out').items()}
    # every set of actions, sets of languages
    ref = {}
    combos = [(a, l) for a in (['zonedb'], ['json'], ['zonelist'], ['zonedb', 'json'], ['zonedb', 'zonelist'], ['json', 'zonelist'], ['zonedb', 'json', 'zonelist'])
              for l in (['python'], ['arduino'], ['c'], ['go'], ['python', 'go'], ['arduino', 'go'], ['c', 'python'], ['python', 'arduino', 'go'], ['go', 'c', 'python'])]
    first = [(['zonedb'], [l]) for l in ('python', 'arduino', 'c', 'go')]
    pick = first + rng.sample(combos, 6)
    for acts, langs in pick:
        acts, langs = list(acts), list(langs)
        rng.shuffle(acts)
        rng.shuffle(langs)
        jn = rng.choice(['zonedb.json', 'zonedb.json', 'other.json', 'data', 'a b.json', 'sub/zonedb.json', 'sub dir/x/other.json'])
        jopt = ['--json_file', jn] if jn != 'zonedb.json' or rng.random() < .3 else []
        how = rng.randint(0, 2)
        outopt = [['--output_dir', 'out'], ['--output_dir', 'out/'], ['--output_dir=out']][how]
        argv = ['--actions', ','.join(acts), '--languages', ','.join(langs)] + req + jopt + outopt + (full if rng.random() < .3 else [])
        if rng.random() < .5:
            argv = [x for pair in sorted(pairs(argv), key=lambda _: rng.random()) for x in pair]
        ob, d = go(argv, jn)
        if ob.kind in ('timeout', 'crash'):
            continue
        if not r.check(ob.ok, 'accepted', '%s: %s %s' % (argv, ob.etype, ob.emsg)):
            continue
        got = set(run.tree(os.path.join(d, 'out')))
        r.check(got == files(langs, acts, jn), 'files written', 'actions %s languages %s: got %s, expected %s' % (acts, langs, sorted(got - files(langs, acts, jn)), sorted(files(langs, acts, jn) - got)))
        r.check(set(os.listdir(d)) <= {'out', 'out.side'}, 'files elsewhere', os.listdir(d))
        now = rest(os.path.join(d, 'out'), argv)
        for n, b in now.items():
            r.check(b.endswith('\n') and len(b) > 2, 'complete', '%s: %d characters' % (n, len(b)))
            key = (n, 'c' if 'c' in langs else 'arduino' if 'arduino' in langs else '') if n.endswith('.h') else (n, '')
            if n != jn:
                r.check(ref.setdefault(key, b) == b, 'complete', '%s differs between runs with %s %s' % (n, acts, langs))
    # defaults: given or not, the result is the same
    g = GRANS[sc]
    expl = full + ['--until_at_granularity', str(g[0]), '--offset_granularity', str(g[1]), '--delta_granularity', str(g[2]), '--json_file', 'zonedb.json']
    mini = ['--actions', 'zonedb,json,zonelist', '--languages', 'python,arduino,go'] + req
    res = []
    for extra in ([], expl):
        argv = mini + extra + ['--output_dir', 'out']
        ob, d = go(argv)
        res.append((ob.ok, rest(os.path.join(d, 'out'), argv)))
    r.check(res[0] == res[1], 'defaults', 'with and without the documented defaults: %s' % delta(res[0][1], res[1][1]))
    # one granularity for all replaces the others, whatever they are
    gr = rng.choice([1, 60, 300, 900, 1800])
    each = ['until_at', 'offset', 'delta']
    other = {x: rng.choice([1, 60, 600, 900, 3600]) for x in each}
    forms = [['--%s_granularity' % x, str(gr)] for x in each], [['--granularity', str(gr)]], [['--granularity', str(gr)]] + [['--%s_granularity' % x, str(other[x])] for x in rng.sample(each, rng.randint(1, 3))]
    res2 = []
    for form in forms:
        rng.shuffle(form)
        argv = mini + sum(form, []) + ['--nostrict', '--output_dir', 'out']
        ob, d = go(argv)
        res2.append((ob.ok, rest(os.path.join(d, 'out'), argv)))
    for form, x in zip(forms[1:], res2[1:]):
        r.check(x == res2[0], 'granularity', '%s and %s: %s' % (forms[0], form, delta(res2[0][1], x[1])))
    # output directory by default is the current one
    argv = mini
    ob, d = go(argv)
    got = {n: b for n, b in rest(d, argv).items() if os.path.isfile(os.path.join(d, n))}
    r.check(ob.ok and got == res[0][1] and os.listdir(os.path.join(d, 'out')) == [], 'default directory', 'ok %s: %s' % (ob.ok, delta(res[0][1], got)))
    # rejected requests
    base = ['--actions', 'zonedb,json,zonelist', '--languages', 'python'] + req + ['--output_dir', 'out']

    def without(a, k):
        i = a.index(k)
        return a[:i] + a[i + 2:]

    def put(a, k, v):
        return [v if i and a[i - 1] == k else x for i, x in enumerate(a)]
    bad = [('action', put(base, '--actions', v)) for v in ('zap', 'zonedb,zap', 'Zonedb', 'zonedb json', 'json,zonelist,zonedbx', 'zonedb;json')]
    bad += [('language', put(base, '--languages', v)) for v in ('cobol', 'python,rust', 'Python', 'c,cpp', 'go,python,x', 'arduino python')]
    bad += [('scope', put(base, '--scope', v)) for v in ('Basic', 'full', '')]
    bad += [('missing option', without(base, k)) for k in ('--actions', '--languages', '--scope', '--input_dir', '--tz_version')]
    bad += [('number', base + [k, v]) for k, v in (('--start_year', 'x'), ('--until_year', '20.5'), ('--tiny_base_year', ''), ('--granularity', '1m'), ('--offset_granularity', 'a'))]
    bad += [('option', base + ['--nosuch']), ('argument', base + ['stray']), ('include list', base + ['--include_list', os.path.join(root, 'nofile')]),
            ('directory', put(base, '--output_dir', 'nowhere')), ('input', put(base, '--input_dir', os.path.join(root, 'nothing')))]
    for l in ('arduino', 'c', 'go'):
        one = put(put(base, '--languages', l), '--actions', 'zonedb')
        bad.append(('no namespace', rng.choice([without(one, '--db_namespace'), put(one, '--db_namespace', '')])))
    argv = without(mini, '--db_namespace') + ['--output_dir', 'out']
    argv[argv.index('--languages') + 1] = 'python'
    ob, d = go(argv)
    r.check(ob.ok and set(run.tree(os.path.join(d, 'out'))) == files(['python'], ['zonedb', 'json', 'zonelist']), 'namespace', 'Python needs no namespace: %s' % ob.emsg)
    for kind, argv in rng.sample(bad, 16):
        ob, d = go(argv)
        if ob.kind in ('timeout', 'crash'):
            continue
        r.check(not ob.ok, 'rejected', '%s: %s accepted' % (kind, argv))
        left = [n for n in os.listdir(d) if n not in ('out', 'out.side')] + os.listdir(os.path.join(d, 'out'))
        r.check(not left, 'nothing written', '%s: %s wrote %s' % (kind, argv, left))
    r.samples.append('%s: %d runs' % (sc, cnt[0]))
    return r


def pairs(argv):
    out, i = [], 0
    while i < len(argv):
        if i + 1 < len(argv) and not argv[i + 1].startswith('--') and '=' not in argv[i]:
            out.append((argv[i], argv[i + 1]))
            i += 2
        else:
            out.append((argv[i],))
            i += 1
    return out


# ---------------------------------------------------------------- P31
def p31_specs(rng, tier):
    k = 3 if tier == 'quick' else 20
    out = []
    for i in range(8 * k):
        def make(rg):
            return work.general(rg, 'io', scope=['complete', 'extended', 'basic'][i % 3], strict=False, valid=False, estimate=0, n_zone=rg.choice([(2, 5), (20, 40)]), n_link=(1, 6))
        c = work.attempt(rng, make, tries=30, ok=lambda X: all(not engine.lang_faults(X, l) for l in ('python', 'arduino', 'c', 'go')))
        out.append(dict(case=c.to_json(), seed=rng.getrandbits(32)))
    if tier != 'quick':
        for w, o in work.REAL_OPTS[:4]:
            out.append(dict(case=engine.Case('io-real', w, o).to_json(), seed=rng.getrandbits(32)))
    return out


def p31_one(args):
    spec, root = args
    case = engine.Case.from_json(spec['case'])
    rng = random.Random(spec['seed'])
    r = Res('io', spec)
    t, src = engine.source(case)
    X, fail = engine.expectation(case, src)
    if fail or not X.zones or any(engine.lang_faults(X, l) for l in ('python', 'arduino', 'c', 'go')):
        r.stats['unsuitable source'] = 1
        return r
    langs = rng.choice([['python', 'arduino', 'go'], ['go', 'c', 'python'], ['arduino', 'go'], ['python']])
    acts = ['zonedb', 'json', 'zonelist']
    rng.shuffle(acts)
    sub = rng.random() < .3
    jn = 'sub/zonedb.json' if sub else rng.choice(['zonedb.json', 'zonedb.json', 'all zones'])
    o = dict(case.opts, languages=','.join(langs), actions=','.join(acts), json_file=jn, db_namespace='zdb', tz_version='2024a', include_list='include')
    names = list(src['zones']) + [n for n in src['links']]
    argv = run.cli_args(o, 'in', 'out')
    want = set().union(*(set(TEXT_FILES[l]) for l in langs)) | {jn, 'zones.txt'}
    cnt = [0]

    def mk():
        cnt[0] += 1
        d = os.path.join(root, 'c%d' % cnt[0])
        engine.write_texts(t, os.path.join(d, 'in'))
        engine.write_include(names, os.path.join(d, 'include'))
        os.makedirs(os.path.join(d, 'out', 'sub'))
        return d

    def go(d, fsize=None):
        rc, out = proc(CMD + argv, d, fsize=fsize)
        if rc is None:
            r.inconclusive.append('timeout')
        return rc, out

    def result(d):
        """The files of the run which are there, in full length."""
        res = {}
        for n in want:
            q = os.path.join(d, 'out', n)
            if os.path.isfile(q):
                with open(q, 'rb') as h:
                    res[n] = h.read()
        return res
    d = mk()
    rc, out = go(d)
    if rc is None:
        return r
    base = result(d)
    if not r.check(rc == 0 and set(base) == want and set(run.tree(os.path.join(d, 'out'))) == want, 'complete', 'exit %s, files %s: %s' % (rc, delta({n: 0 for n in want}, {n: 0 for n in base}), out[-300:])):
        return r
    shutil.rmtree(d)

    def judge(what, rc, d, aspect):
        if rc is None:
            return
        got = result(d)
        r.check(rc != 0 or got == base, aspect, '%s: exit status 0, but %s' % (what, delta(base, got)))
        r.stats['reported' if rc else 'survived'] = r.stats.get('reported' if rc else 'survived', 0) + 1
        shutil.rmtree(d)

    # a file which cannot be written, or not to its end
    for n in sorted(want) if len(want) < 9 else rng.sample(sorted(want), 8):
        kind = rng.choice(['full', 'full', 'full', 'directory', 'nowhere', 'loop'])
        d = mk()
        q = os.path.join(d, 'out', n)
        if kind == 'full':
            os.symlink('/dev/full', q)
        elif kind == 'directory':
            os.makedirs(q)
        elif kind == 'nowhere':
            os.symlink(os.path.join(d, 'no', 'such', 'dir'), q)
        else:
            os.symlink(os.path.basename(q), q)
        rc, out = go(d)
        judge('%s is %s' % (n, dict(full='on a full device', directory='a directory', nowhere='in no directory', loop='a loop of links')[kind]), rc, d, 'failed write')
    sizes = sorted(len(b) for b in base.values())

    def limits(what, base):
        sizes = sorted(len(b) for b in base.values())
        top = sizes[-1]
        near = [top - 1, top - rng.randint(2, 300)]
        more = [rng.randrange(top), rng.choice(sizes) - 1, rng.choice([0, 1, 4096, 8192]), top, top + rng.randrange(5000)]
        for lim in near + more if what == 'all' else [rng.choice(near), rng.choice(more)]:
            lim = max(0, lim)
            d = mk()
            rc, out = go(d, fsize=lim)
            if lim >= top:
                r.check(rc in (0, None), 'enough room', 'exit %s with room for every file: %s' % (rc, out[-300:]))
            judge('%s, no file longer than %d bytes' % (what, lim), rc, d, 'failed write')
    limits('all', base)
    # the same for each kind of file by itself, so that no other fails first
    whole = argv, want, base
    for l, ac in rng.sample([(l, 'zonedb') for l in ('python', 'arduino', 'c', 'go')] + [(langs[0], 'json'), (langs[0], 'zonelist')], 4):
        argv = run.cli_args(dict(o, languages=l, actions=ac), 'in', 'out')
        want = set(TEXT_FILES[l]) if ac == 'zonedb' else {jn} if ac == 'json' else {'zones.txt'}
        d = mk()
        rc, out = go(d)
        base = result(d)
        shutil.rmtree(d)
        if rc is not None and r.check(rc == 0 and set(base) == want, 'complete', '%s %s: exit %s, files %s: %s' % (l, ac, rc, sorted(base), out[-300:])):
            limits('%s %s' % (l, ac), base)
    argv, want, base = whole
    if sub:
        d = mk()
        os.rmdir(os.path.join(d, 'out', 'sub'))
        rc, out = go(d)
        judge('no directory for the JSON', rc, d, 'failed write')
    d = mk()
    shutil.rmtree(os.path.join(d, 'out'))
    kind = rng.choice(['missing', 'file', 'dangling'])
    if kind == 'file':
        open(os.path.join(d, 'out'), 'w').close()
    elif kind == 'dangling':
        os.symlink('nowhere', os.path.join(d, 'out'))
    rc, out = go(d)
    judge('output directory %s' % kind, rc, d, 'failed write')

    # an input which cannot be read, or not to its end
    def spoil(q, kind):
        if kind == 'missing':
            os.unlink(q)
        elif kind == 'directory':
            os.unlink(q)
            os.makedirs(q)
        elif kind == 'error':
            os.unlink(q)
            os.symlink('/proc/self/mem', q)
        elif kind == 'loop':
            os.unlink(q)
            os.symlink(os.path.basename(q), q)
        else:
            with open(q, 'ab') as h:
                h.write(b'# \xff\xfe \xe9t\xe9\n')
    kinds = ['missing', 'directory', 'error', 'loop', 'encoding']
    for n in rng.sample(sorted(os.listdir(os.path.join(mk(), 'in'))), 5):
        kind = rng.choice(kinds)
        d = mk()
        spoil(os.path.join(d, 'in', n), kind)
        rc, out = go(d)
        if rc is not None:
            left = run.tree(os.path.join(d, 'out'))
            r.check(rc != 0, 'failed read', '%s (%s): exit status 0, wrote %s' % (n, kind, sorted(left)[:5]))
            r.check(rc == 0 or not left, 'nothing written', '%s (%s): wrote %s' % (n, kind, sorted(left)[:5]))
    for kind in rng.sample(kinds, 2):
        d = mk()
        spoil(os.path.join(d, 'include'), kind)
        rc, out = go(d)
        if rc is not None:
            left = run.tree(os.path.join(d, 'out'))
            r.check(rc != 0, 'failed read', 'include list (%s): exit status 0, wrote %s' % (kind, sorted(left)[:5]))
            r.check(rc == 0 or not left, 'nothing written', 'include list (%s): wrote %s' % (kind, sorted(left)[:5]))
    r.samples.append('%s: %d runs, files of %s bytes' % (case.opts['scope'], cnt[0], sizes))
    return r


# ---------------------------------------------------------------- P13, P14: two databases in one program
def pair_specs(lang):
    def specs(rng, tier):
        out = []
        for i in range(60 if tier == 'quick' else 600):
            # the fields of the C tables have one width per program
            a = rng.choice(['basic', 'extended', 'complete'])
            b = rng.choice(['basic', 'extended', 'complete'] if lang == 'arduino' else ['complete'] if a == 'complete' else ['basic', 'extended'])
            cs = []
            for sc in (a, b):
                cs.append(work.attempt(rng, lambda r: work.general(r, 'pair%d' % i, surfaces=(lang,), scope=sc, strict=False, noalign=0, valid=False, n_zone=(1, 5), n_pol=(1, 3)),
                                       tries=20, ok=lambda X: not engine.lang_faults(X, lang)))
            if rng.random() < .5:       # one source, two databases
                cs[1].src = cs[0].src
            out.append(dict(cases=[c.to_json() for c in cs], lang=lang, seed=rng.getrandbits(32)))
        return out
    return specs


def pair_one(args):
    spec, root = args
    rng = random.Random(spec['seed'])
    lang = spec['lang']
    cxx = lang == 'arduino'
    r = Res('pair', spec)
    names = rng.choice([('zonedb', 'zonedbx'), ('zonedbc', 'zdb2'), ('Atc', 'AtcTesting'), ('abc', 'xyz')])
    dbs = []
    for tag, ns, j in zip('ab', names, spec['cases']):
        case = engine.Case.from_json(j)
        t, src = engine.source(case)
        X, fail = engine.expectation(case, src)
        if fail or not X.zones or engine.lang_faults(X, lang):
            r.stats['unsuitable source'] = 1
            return r
        ind, out = os.path.join(root, 'in' + tag), os.path.join(root, tag)
        engine.write_texts(t, ind)
        os.makedirs(out)
        ob = run.run_cli(run.cli_args(dict(case.opts, db_namespace=ns, languages=lang, actions='zonedb'), ind, out), out, cwd=root)
        if ob.kind in ('timeout', 'crash'):
            r.inconclusive.append(ob.kind)
            return r
        if not r.check(ob.ok, 'pair accepted', '%s %s' % (ob.etype, ob.emsg)):
            return r
        dbs.append((tag, ns, case.opts['scope'], X))
    ext = 'cpp' if cxx else 'c'
    if cxx:
        inc, cc = ['-I', os.path.join(run.VERIF, 'stubs', 'cxx')], ['g++', '-std=c++11']
    else:
        shutil.copytree(os.path.join(run.VERIF, 'stubs', 'c', 'zoneinfo'), os.path.join(root, 'zoneinfo'))
        inc, cc = ['-DVT_HIGH'] if dbs[0][2] == 'complete' else [], ['gcc', '-std=c11']
    hs = ['%s/%s.h' % (d[0], n) for d in dbs for n in ('zone_infos', 'zone_policies', 'zone_registry')]
    hs += hs
    rng.shuffle(hs)
    o = ['#include "%s"\n' % h for h in hs] + ['#include <stdio.h>\n', 'int main(void) {\n']
    for tag, ns, sc, X in dbs:
        pre = 'ace_time::%s::k' % ns if cxx else 'k' + ns
        for k in ('Zone', 'ZoneAndLink'):
            o.append('for (unsigned i = 0; i < %s%sRegistrySize; i++) printf("%s %s %%lu\\n", (unsigned long)%s%sRegistry[i]->zoneId);\n' % (pre, k, tag, k, pre, k))
        o.append('printf("%s from %%d until %%d version %%s\\n", (int)%sZoneContext.startYear, (int)%sZoneContext.untilYear, %sZoneContext.tzVersion);\n' % (tag, pre, pre, pre))
        for n in list(X.zones) + list(X.links):
            o.append('printf("%s id %%lu %%lu\\n", (unsigned long)%sZoneId%s, (unsigned long)%sZone%s.zoneId);\n' % (tag, pre, model.symbol(n), pre, model.symbol(n)))
    o.append('return 0; }\n')
    with open(os.path.join(root, 'main.' + ext), 'w') as f:
        f.write(''.join(o))
    units = ['main.' + ext] + ['%s/%s.%s' % (d[0], n, ext) for d in dbs for n in ('zone_infos', 'zone_policies', 'zone_registry')]
    try:
        san = ['-O0', '-g0', '-fsanitize=address,undefined', '-fno-sanitize-recover=all']
        if not cxx and rng.random() < .5:       # C tables, C++ user
            os.rename(os.path.join(root, 'main.c'), os.path.join(root, 'main.cpp'))
            p = subprocess.run(['g++', '-std=c++11'] + san + inc + ['-c', 'main.cpp', '-o', 'main.o'], cwd=root, capture_output=True, text=True, timeout=300)
            if not p.returncode:
                objs = []
                for u in units[1:]:
                    objs.append(u[:-1] + 'o')
                    p = p if p.returncode else subprocess.run(cc + san + inc + ['-c', u, '-o', objs[-1]], cwd=root, capture_output=True, text=True, timeout=300)
                p = p if p.returncode else subprocess.run(['g++'] + san + ['main.o'] + objs + ['-o', 'both'], cwd=root, capture_output=True, text=True, timeout=300)
            r.stats['C tables from C++'] = 1
        else:
            p = subprocess.run(cc + san + inc + units + ['-o', 'both'], cwd=root, capture_output=True, text=True, timeout=300)
        if p.returncode and ('internal compiler error' in p.stderr or 'Killed' in p.stderr or 'No space left' in p.stderr):
            r.inconclusive.append(p.stderr[:200])
            return r
        if not r.check(p.returncode == 0, 'two databases in one program', 'does not build: %s' % [l for l in p.stderr.split('\n') if 'error' in l or 'multiple' in l][:3]):
            return r
        p = subprocess.run([os.path.join(root, 'both')], cwd=root, capture_output=True, text=True, timeout=120, env=dict(os.environ, ASAN_OPTIONS='detect_leaks=0'))
    except subprocess.TimeoutExpired:
        r.inconclusive.append('timeout')
        return r
    if not r.check(p.returncode == 0, 'two databases in one program', p.stderr[:300]):
        return r
    got, want = sorted(p.stdout.split('\n')[:-1]), []
    for (tag, ns, sc, X), j in zip(dbs, spec['cases']):
        ver = j['opts'].get('tz_version', '2024b')
        want.append('%s from %d until %d version %s' % (tag, X.opts['start'], X.opts['until'], ver))
        for n in list(X.zones) + list(X.links):
            want.append('%s id %d %d' % (tag, X.ids[n], X.ids[n]))
            want.append('%s ZoneAndLink %d' % (tag, X.ids[n]))
        want += ['%s Zone %d' % (tag, X.ids[n]) for n in X.zones]
    r.check(got == sorted(want), 'two databases in one program', 'got %s, expected %s' % ([x for x in got if x not in want][:4], [x for x in want if x not in got][:4]))
    r.samples.append('%s %s %s and %s: %d lines' % (lang, names, dbs[0][2], dbs[1][2], len(got)))
    return r


SPECS = {'P13': (pair_specs('arduino'), pair_one), 'P14': (pair_specs('c'), pair_one),
         'P19': (p19_specs, p19_one), 'P29': (p29_specs, p29_one), 'P30': (p30_specs, p30_one), 'P31': (p31_specs, p31_one)}
