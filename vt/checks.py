"""Which observations decide which property."""
import collections
import hashlib
import json
import os
import random
import re
import shutil
import sys
import time

from . import engine, harness, run, sweeps, work

# aspect patterns ('surface' may be restricted with  surface|aspect)
COMMON = ['unexpected-fail', 'decode']
RECORDS = ['zones:set', 'links:set', 'policies:set', 'rule:.*', 'rules:list', 'era:.*', 'eras:list', 'anchor', 'closure', 'link-.*']
TIMES = ['era:off', 'era:delta', 'era:until', 'rule:at', 'rule:save']
LANG = RECORDS + ['ctx:.*', 'registry:.*', 'ids', 'bufs', 'letters', 'formats', 'names', 'fragments', 'compression', 'counts', 'flags', 'accepts-overflow']
ASPECTS = {
    'P01': ['local-time(:.*)?', 'zones:set'],
    'P02': ['era:.*', 'eras:list', 'zones:set', 'removed-zones:.*', 'missing-fail:loss'],
    'P03': ['rule:.*', 'rules:list', 'policies:set', 'removed-policies:.*'],
    'P04': ['anchor', 'rule:.*', 'rules:list'],
    'P05': RECORDS + ['removed-.*:names'],
    'P06': ['zones:set', 'links:set', 'policies:set', 'removed-.*:names', 'removed-.*:empty', 'closure', 'missing-fail:loss', 'section-missing', 'link-.*', 'zonelist', 'json:count', 'files-on-fail'],
    'P07': ['zones:set', 'links:set', 'policies:set', 'removed-.*', 'closure'],
    'P08': ['missing-fail:.*', 'files-on-fail'],
    'P09': ['ids', 'registry:.*', 'missing-fail:(hash_collision|zero_id)', 'counts', 'header:Records/Infos', 'section-count'],
    'P10': ['flags', 'ctx:(start|until|start_acc|until_acc)', 'header:(Accurate|Original|Generated|Requested) Years', 'header:Lower/Upper Truncated',
            'json:(original|generated|lower|upper|start|until)_.*', 'json:start_year|json:until_year'],
    'P11': TIMES + ['zones:set', 'policies:set', 'links:set', 'removed-.*', 'notable-.*', 'missing-fail:loss', 'json:.*_granularity', 'json:strict'],
    'P12': ['(arduino|c)|era:until_y', '(arduino|c)|rule:(frm|to)', '(arduino|c)|(anchor|rules:list|eras:list)', 'ctx:base', 'local-time', 'missing-fail:tiny_range', 'accepts-overflow'],
    'P13': ['arduino.*|.*'], 'P14': ['c(:.*)?|.*', 'C|.*'], 'P15': ['go.*|.*'], 'P16': ['python.*|.*'],
    'P17': ['(json|zonelist).*|.*', 'python|(zones|links|policies):set'],
    'P18': ['letters', 'formats', 'names', 'fragments', 'compression', 'accepts-overflow', 'rule:letter', 'era:format', 'anchor', 'zones:set', 'links:set', 'registry:.*'],
    'P20': RECORDS + ['removed-.*', 'ids', 'bufs', 'flags', 'names', 'registry:.*', 'header:Original Years', 'json:original_.*', 'missing-fail:.*', 'zonelist'],
    'P21': ['bufs', 'header:buf', 'ctx:max_transitions', 'missing-fail:buffer'],
    'P22': ['era:until_[md]', 'rule:(dow|dom|month)', 'anchor', 'missing-fail:.*', 'zones:set', 'policies:set', 'removed-.*'],
    'P23': TIMES + ['zones:set', 'policies:set', 'removed-.*', 'notable-.*', 'missing-fail:loss'],
    'P24': ['go.*|.*', 'accepts-overflow'],
    'P25': ['removed-.*', 'notable-.*', 'section-.*', 'header:Unsupported Zones'],
    'P26': ['header:.*', 'section-count', 'ctx:.*', 'counts', 'bufs', 'json:.*'],
    'P27': ['links:set', 'link-.*', 'closure', 'ids', 'names', 'compression', 'fragments', 'registry:.*'],
    'P28': ['accepts-overflow'] + RECORDS + ['missing-fail:.*', 'removed-.*', 'counts', 'ctx:.*', 'letters', 'names', 'formats', 'fragments', 'compression'],
    'P30': ['.*'],
}
# a run in which one of these never happened decides nothing
NEED = {'P01': ['zone timelines'], 'P08': ['refused:hash_collision', 'refused:dup_symbol'], 'P13': ['decoded:arduino'], 'P14': ['decoded:c'], 'P15': ['decoded:go'],
        'P16': ['decoded:python'], 'P17': ['decoded:json', 'decoded:zonelist'], 'P24': ['decoded:go'], 'P25': ['comment entries'], 'P26': ['header fields']}
RULES = {
    'default': 'Each case is a generated or real TZ source with options; the real command line runs on it and every artefact is decoded and compared with the reference model. '
               'A case is non-trivial when at least one artefact was decoded with records in it, or a required refusal was observed; distinct by the digest of source, options, include list and surfaces.',
    'P19': 'Each scenario runs one source several times (fresh interpreters with different hash seeds, old files in the output directory, in place, and subsets of languages and actions) and compares the files byte by byte. Non-trivial when files were compared.',
    'P29': 'Each scenario runs the real shell scripts, as an unprivileged user, on a scratch git repository with two tags and a dirty tree, and compares directory snapshots. Non-trivial when at least one snapshot was compared.',
    'P30': 'Each scenario runs one source with many option combinations and checks files, contents, exit status. Non-trivial when at least one run was checked. Engine cases with random namespaces, versions and file names come on top.',
    'P31': 'Each scenario runs one source in fresh processes with outputs on a full device, limited file sizes, missing directories, and inputs that cannot be read; exit status and files are compared with the undisturbed run. Non-trivial when at least one fault was judged. Distinct by the digest of the specification.',
}
QUICK_BUDGET = 240
THOROUGH_BUDGET = 780
CHUNK = 480
# rounds of the workload in the quick tier (2 where not given)
ROUNDS = dict(P04=3, P05=3, P06=3, P07=3, P10=3, P11=3, P12=3, P16=3, P20=3, P23=3, P22=1, P28=1)


def relevant(pid, aspect, surface):
    if any(re.fullmatch(c, aspect) for c in COMMON):
        pats = ASPECTS[pid]
        # for a single language only its own artefacts count
        langs = [p for p in pats if '|' in p and p.endswith('|.*')]
        if not langs or len(langs) != len(pats) or pid == 'P17':
            return True
        return any(re.fullmatch(p.rsplit('|', 1)[0], surface) for p in langs) or surface in ('A', 'C')
    for p in ASPECTS[pid]:
        if p in ('json:start_year|json:until_year',):
            if aspect in p.split('|'):
                return True
            continue
        m = re.fullmatch(r'(.*?)\|((?:\(|[a-z.]).*)', p) if '|' in p and not p.startswith(('missing', 'header', 'json', 'ctx', 'rule')) else None
        if m:
            # surface|aspect
            s, a = split_pattern(p)
            if re.fullmatch(s, surface) and re.fullmatch(a, aspect):
                return True
        elif re.fullmatch(p, aspect):
            return True
    return False


def split_pattern(p):
    """Split at the first '|' outside parentheses."""
    depth = 0
    for i, ch in enumerate(p):
        depth += ch == '('
        depth -= ch == ')'
        if ch == '|' and depth == 0:
            return p[:i], p[i + 1:]
    raise ValueError(p)


def digest(case):
    return hashlib.sha256(json.dumps(case.to_json(), sort_keys=True).encode()).hexdigest()


class Result:
    def __init__(self):
        self.evaluations = 0
        self.distinct = set()
        self.stats = collections.Counter()
        self.outcomes = collections.Counter()
        self.samples = []
        self.inconclusive = []
        self.violations = []        # (kind, aspect, surface, detail, replay dict)
        self.skipped = []


def sample(case, r):
    d = dict(case=case.name, options=case.opts, source=case.src if isinstance(case.src, str) else '%d bytes' % sum(map(len, case.src.values())),
             include=None if case.include is None else len(case.include), surfaces=list(case.surfaces))
    if r.fail:
        d['expected failure'] = str(r.fail)[:200]
    else:
        d['zones'], d['links'], d['policies'] = len(r.X.zones), len(r.X.links), len(r.X.policies)
    d['observed'] = {k: ('ok' if o['ok'] else '%s: %s' % (o['etype'], str(o['emsg'])[:120])) for k, o in r.obs.items()}
    return d


def _generate(args):
    pid, seed, tier = args
    return work.cases(pid, random.Random(seed), tier)


def engine_part(pid, seed, tier, res, deadline):
    if pid not in ASPECTS:
        return
    kn = known(pid)
    # every round is fresh randomness; several are generated side by side
    rounds, ahead = (ROUNDS.get(pid, 2), 3) if tier == 'quick' else (48, 2)
    began, seen, ready = time.time(), set(), []
    for rnd in range(rounds):
        if rnd and (time.time() > deadline - 60 or tier == 'quick' and time.time() - began > 100):
            break
        if not ready:
            ready = run.pmap(_generate, [(pid, '%s-%d' % (seed, r), tier) for r in range(rnd, min(rounds, rnd + ahead))])
        cases = []
        for c in ready.pop(0):
            d = digest(c)
            if d not in seen:
                seen.add(d)
                cases.append(c)
        if not cases:
            return
        for a in range(0, len(cases), CHUNK):
            if a and time.time() > deadline:
                res.stats['cases left out for time'] += len(cases) - a
                break
            judge(pid, cases[a:a + CHUNK], res)
            new = [v for v in res.violations if not listed(kn, v)]
            if len(new) > 20 or tier == 'quick' and new:
                return


def judge(pid, cases, res):
    with run.Scratch() as s:
        recs = engine.run_cases(cases, s)
    redo = [c for c, r in zip(cases, recs) if r.inconclusive]
    if redo:
        res.stats['retried'] += len(redo)
        with run.Scratch() as s:
            again = engine.run_cases(redo, s, procs=2)
        it = iter(again)
        recs = [next(it) if r.inconclusive else r for r in recs]
    for c, r in zip(cases, recs):
        res.evaluations += 1
        res.stats.update(r.stats)
        res.outcomes['refusal: ' + r.fail.kind if r.fail else 'success'] += 1
        if r.inconclusive:
            res.inconclusive.append('%s: %s' % (c.name, r.inconclusive[:2]))
            continue
        if any(k.startswith('refused:') or (k in ('eras', 'rules', 'zones') and v) for k, v in r.stats.items()):
            res.distinct.add(digest(c))
        if len(res.samples) < 6 or (r.fail and sum(1 for x in res.samples if 'expected failure' in x) < 2):
            res.samples.append(sample(c, r))
        for aspect, surface, detail in r.d:
            if relevant(pid, aspect, surface):
                res.violations.append(('case', aspect, surface, detail, dict(kind='case', case=c.to_json())))


def sweep_part(pid, rng, tier, res, seedinfo):
    if pid not in sweeps.SWEEPS:
        return
    o = sweeps.run(pid, rng, tier)
    res.evaluations += o.n
    res.skipped += o.skipped
    for p, n in o.pieces.items():
        res.stats['function ' + p] += n
    res.samples += o.samples[:6]
    res.sweep_n = len(o.seen)
    for piece, detail in o.bad:
        res.violations.append(('sweep', piece, 'function', detail, dict(kind='sweep', state=seedinfo)))


def harness_part(pid, rng, tier, res, deadline):
    if pid not in harness.SPECS:
        return
    mk, one = harness.SPECS[pid]
    specs = mk(rng, tier)
    per = 48
    for a in range(0, len(specs), per):
        if a and time.time() > deadline:
            res.stats['scenarios left out for time'] += len(specs) - a
            break
        rs = run_specs(one, specs[a:a + per])
        for sp, r in zip(specs[a:a + per], rs):
            res.evaluations += 1
            for k, v in r.stats.items():
                res.stats['checked: ' + k] += v
            res.outcomes[r.name if pid == 'P29' else 'scenario'] += 1
            if r.inconclusive:
                res.inconclusive.append('%s: %s' % (r.name, r.inconclusive[:2]))
            if r.n:
                res.distinct.add(hashlib.sha256(json.dumps(sp, sort_keys=True).encode()).hexdigest())
            if len(res.samples) < 8:
                res.samples += r.samples[:1]
            for aspect, detail in r.bad:
                res.violations.append(('scenario', aspect, pid, detail, dict(kind='scenario', spec=sp)))


def run_specs(one, specs):
    with run.Scratch() as s:
        os.chmod(s, 0o755)
        jobs = []
        for i, x in enumerate(specs):
            d = os.path.join(s, 'h%d' % i)
            os.makedirs(d)
            jobs.append((x, d))
        return run.pmap(one, jobs)


# ---------------------------------------------------------------- known findings
def known(pid):
    out = []
    p = os.path.join(run.VERIF, 'KNOWN_FINDINGS.txt')
    if os.path.exists(p):
        with open(p) as f:
            for line in f:
                m = re.match(r'known: property=(\S+) aspect=(\S+) match=/(.*)/ (.*)$', line.strip())
                if m and m[1] == pid:
                    out.append((re.compile(m[2]), re.compile(m[3]), m[4]))
    return out


def listed(kn, v):
    return [d for a, m, d in kn if a.fullmatch(v[1]) and m.search(v[3])]


# ---------------------------------------------------------------- entry
def main(argv):
    pid = argv[0]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--tier' in argv:
        tier = argv[argv.index('--tier') + 1]
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    run.boot()
    if '--replay' in argv:
        return replay(pid, argv[argv.index('--replay') + 1])
    t0 = time.time()
    budget = float(os.environ.get('VT_BUDGET', QUICK_BUDGET if tier == 'quick' else THOROUGH_BUDGET))
    deadline = t0 + budget
    res = Result()
    res.sweep_n = 0
    state = dict(seed='%s-%d-sweep' % (pid, seed), tier=tier)
    sweep_part(pid, random.Random(state['seed']), tier, res, state)
    harness_part(pid, random.Random('%s-%d-h' % (pid, seed)), tier, res, deadline)
    engine_part(pid, '%s-%d' % (pid, seed), tier, res, deadline)
    # ---- verdict
    kn = known(pid)
    fresh, told = [], set()
    for v in res.violations:
        hit = listed(kn, v)
        if hit:
            told.add(hit[0])
        else:
            fresh.append(v)
    for d in sorted(told):
        print('KNOWN-FINDING: property=%s %s' % (pid, d))
    missing = [n for n in NEED.get(pid, ()) if not res.stats[n]]
    wall = time.time() - t0
    distinct = len(res.distinct) + res.sweep_n
    ev = dict(property=pid, tier=tier, seed=seed, level='exploration',
              coverage=dict(evaluations=res.evaluations, distinct_nontrivial=distinct, rule=RULES.get(pid, RULES['default']) + (
                  ' Function sweeps count every distinct argument tuple.' if res.sweep_n else ''), samples=res.samples[:10] or ['none'],
                  observed={k: v for k, v in sorted(res.stats.items())}, outcomes=dict(res.outcomes), inconclusive=res.inconclusive[:10],
                  skipped=res.skipped),
              assumptions=ASSUME, wall_s=round(wall, 2), violations=len(fresh))
    os.makedirs(os.path.join(run.VERIF, 'evidence'), exist_ok=True)
    with open(os.path.join(run.VERIF, 'evidence', pid + '.json'), 'w') as f:
        json.dump(ev, f, indent=1, default=str)
        f.write('\n')
    print('%s %s seed %d: %d evaluations, %d distinct non-trivial, %.1f s' % (pid, tier, seed, res.evaluations, distinct, wall))
    print('  outcomes: ' + ', '.join('%s %d' % x for x in sorted(res.outcomes.items())))
    if fresh:
        seen = collections.Counter()
        for kind, aspect, surface, detail, rp in fresh:
            seen[(aspect, surface.split(':')[0])] += 1
            if seen[(aspect, surface.split(':')[0])] > 1 or len(seen) > 6:
                continue
            path = save_replay(pid, aspect, surface, detail, rp)
            print('VIOLATION property=%s replay=%s' % (pid, path))
            print('  %s (%s): %s' % (aspect, surface, detail))
        print('  %d discrepancies in all' % len(fresh))
        return 1
    if res.inconclusive or missing:
        print('INCONCLUSIVE property=%s %s %s' % (pid, res.inconclusive[:3], ('never observed: %s' % missing) if missing else ''))
        return 2
    return 0


ASSUME = ['the reference model in vt/model.py states the property correctly', 'the acetime stub honours the zone processor contract',
          'the C/C++/Go type stubs have the field widths of the real runtime libraries', 'held only on the executions listed']


def save_replay(pid, aspect, surface, detail, rp):
    d = os.path.join(run.VERIF, 'replays')
    os.makedirs(d, exist_ok=True)
    body = json.dumps(dict(rp, property=pid, aspect=aspect, surface=surface, detail=detail), indent=1)
    p = os.path.join(d, '%s-%s.json' % (pid, hashlib.sha256(body.encode()).hexdigest()[:12]))
    with open(p, 'w') as f:
        f.write(body + '\n')
    return p


def replay(pid, path):
    with open(path) as f:
        d = json.load(f)
    res = Result()
    if d['kind'] == 'case':
        judge(pid, [engine.Case.from_json(d['case'])], res)
    elif d['kind'] == 'scenario':
        for r in run_specs(harness.SPECS[pid][1], [d['spec']]):
            res.violations += [('scenario', a, pid, x, None) for a, x in r.bad]
    else:
        sweep_part(pid, random.Random(d['state']['seed']), d['state']['tier'], res, d['state'])
    for v in res.violations:
        print('  %s (%s): %s' % v[1:4])
    if res.violations:
        print('VIOLATION property=%s replay=%s' % (pid, path))
        return 1
    print('not reproduced')
    return 0
