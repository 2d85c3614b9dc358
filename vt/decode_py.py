"""Import the generated Python modules the way a consumer does and turn them
into canonical records."""
import importlib
import itertools
import os
import sys
import tempfile
import shutil

_n = itertools.count()


class DecodeError(Exception):
    """The generated artefact cannot be consumed: a violation, not an error."""


TYPING = '''
from typing import Any, Dict, List
ZoneRule = Dict[str, Any]
ZonePolicy = Dict[str, Any]
ZoneEra = Dict[str, Any]
ZoneInfo = Dict[str, Any]
ZoneInfoMap = Dict[str, ZoneInfo]
'''
RULE_KEYS = ['from_year', 'to_year', 'in_month', 'on_day_of_week', 'on_day_of_month', 'at_seconds',
             'at_time_suffix', 'delta_seconds', 'letter']
ERA_KEYS = ['offset_seconds', 'zone_policy', 'era_delta_seconds', 'format', 'until_year', 'until_month',
            'until_day', 'until_seconds', 'until_time_suffix']


def need(c, msg):
    if not c:
        raise DecodeError(msg)


def decode(out_dir):
    root = tempfile.mkdtemp(prefix='vtpy.', dir=os.path.dirname(out_dir))
    name = 'vtgen_%d_%d' % (os.getpid(), next(_n))
    try:
        pkg = os.path.join(root, name)
        os.makedirs(os.path.join(pkg, 'zonedb'))
        with open(os.path.join(pkg, '__init__.py'), 'w'):
            pass
        with open(os.path.join(pkg, 'typing.py'), 'w') as f:
            f.write(TYPING)
        with open(os.path.join(pkg, 'zonedb', '__init__.py'), 'w'):
            pass
        for m in ('zone_policies.py', 'zone_infos.py', 'zone_registry.py'):
            need(os.path.exists(os.path.join(out_dir, m)), 'missing ' + m)
            shutil.copy(os.path.join(out_dir, m), os.path.join(pkg, 'zonedb', m))
        sys.path.insert(0, root)
        try:
            importlib.invalidate_caches()
            mods = []
            for m in ('zone_policies', 'zone_infos', 'zone_registry'):
                try:
                    mods.append(importlib.import_module('%s.zonedb.%s' % (name, m)))
                except Exception as e:
                    raise DecodeError('python module %s does not import: %s: %s' % (m, type(e).__name__, e))
        finally:
            sys.path.remove(root)
            for k in [k for k in sys.modules if k == name or k.startswith(name + '.')]:
                del sys.modules[k]
        return _canon(*mods)
    finally:
        shutil.rmtree(root, ignore_errors=True)


def _canon(pol, inf, reg):
    from . import model
    db = {'lang': 'python', 'policies': {}, 'zones': {}, 'links': {}, 'link_eras': {}}
    pid = {}
    for k, v in vars(pol).items():
        if k.startswith('ZONE_POLICY_'):
            need(isinstance(v, dict) and set(v) == {'name', 'rules'}, 'policy record %s' % k)
            need('ZONE_POLICY_' + model.symbol(v['name']) == k, 'policy symbol %s names %s' % (k, v['name']))
            need(v['name'] not in db['policies'], 'policy %s twice' % v['name'])
            need(v['rules'] is getattr(pol, 'ZONE_RULES_' + k[12:], None), 'policy %s rules' % k)
            rs = []
            for r in v['rules']:
                need(sorted(r) == sorted(RULE_KEYS), 'rule keys %s' % sorted(r))
                rs.append(tuple(r[q] for q in RULE_KEYS))
            db['policies'][v['name']] = rs
            pid[id(v)] = v['name']

    def eras(es):
        out = []
        for e in es:
            need(sorted(e) == sorted(ERA_KEYS), 'era keys %s' % sorted(e))
            p = e['zone_policy']
            if p is not None:
                need(id(p) in pid, 'era refers to an unknown policy object')
                p = pid[id(p)]
            t = [e[q] for q in ERA_KEYS]
            t[1] = p
            out.append(tuple(t))
        return out
    zid = {}
    for k, v in vars(inf).items():
        if k.startswith('ZONE_INFO_'):
            need(isinstance(v, dict) and 'name' in v and 'eras' in v and set(v) <= {'name', 'eras', 'link_to'}, 'zone record %s' % k)
            need('ZONE_INFO_' + model.symbol(v['name']) == k, 'zone symbol %s names %s' % (k, v['name']))
            need(v['name'] not in db['zones'] and v['name'] not in db['links'], 'zone %s twice' % v['name'])
            zid[id(v)] = v['name']
            if v.get('link_to') is not None:
                need(id(v['link_to']) in zid, 'link %s target is not a zone record' % v['name'])
                db['links'][v['name']] = zid[id(v['link_to'])]
                need(v['eras'] is v['link_to']['eras'], 'link %s does not share the eras of its target' % v['name'])
                db['link_eras'][v['name']] = eras(v['eras'])
            else:
                db['zones'][v['name']] = eras(v['eras'])
    for nm in ('ZONE_REGISTRY', 'ZONE_AND_LINK_REGISTRY'):
        r = getattr(reg, nm, None)
        need(isinstance(r, dict), 'no ' + nm)
        for k, v in r.items():
            need(zid.get(id(v)) == k, '%s[%r] is the record of %r' % (nm, k, zid.get(id(v))))
    db['registry'] = list(reg.ZONE_REGISTRY)
    db['registry_all'] = list(reg.ZONE_AND_LINK_REGISTRY)
    db['ctx'] = {}
    for k, c in (('tz_version', 'TZDB_VERSION'), ('start', 'START_YEAR'), ('until', 'UNTIL_YEAR'),
                 ('start_acc', 'START_YEAR_ACCURATE'), ('until_acc', 'UNTIL_YEAR_ACCURATE')):
        need(hasattr(inf, c), 'no ' + c)
        db['ctx'][k] = getattr(inf, c)
    return db
