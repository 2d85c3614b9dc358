"""Compile the generated Arduino/C++ or C files against stub runtime headers
with sanitizers, let a harness walk every table, and decode the documented
encodings back to canonical records."""
import os
import re
import shutil
import subprocess
import tempfile

from .decode_py import DecodeError, need
from .model import NEG_YEAR, INF_TO, INF_UNTIL, symbol
from . import run

SAN = ['-fsanitize=address,undefined', '-fno-sanitize-recover=all']
ENV = dict(os.environ, ASAN_OPTIONS='detect_leaks=0:abort_on_error=0:exitcode=99',
           UBSAN_OPTIONS='halt_on_error=1:exitcode=99')


class ToolError(Exception):
    """The machinery failed: inconclusive."""


def sh(cmd, cwd, timeout=300, env=None):
    try:
        return subprocess.run(cmd, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                              timeout=timeout, env=env or ENV, text=True, errors='surrogateescape')
    except subprocess.TimeoutExpired:
        raise ToolError('timeout: %s' % cmd[0])


def harness(cxx, scope, ns, hdr_infos, hdr_policies):
    """C++/C source printing every field of every table reachable from the
    public symbols."""
    high = scope == 'complete'
    if cxx:
        zpat = r'extern\s+const\s+(?:\w+::)*ZoneInfo\s+(kZone(\w+))\s*;'
        ppat = r'extern\s+const\s+(?:\w+::)*ZonePolicy\s+(kZonePolicy(\w+))\s*;'
        idpat = r'const\s+uint32_t\s+(kZoneId(\w+))\s*='
        bufpat = r'const\s+uint8_t\s+(kZoneBufSize(\w+))\s*='
        pre = 'k'
    else:
        zpat = r'extern\s+const\s+AtcZoneInfo\s+(k%sZone(\w+))\s*;' % ns
        ppat = r'extern\s+const\s+AtcZonePolicy\s+(k%sZonePolicy(\w+))\s*;' % ns
        idpat = r'#define\s+(k%sZoneId(\w+))\s' % ns
        bufpat = r'#define\s+(k%sZoneBufSize(\w+))\s' % ns
        pre = 'k' + ns
    zs, ps = re.findall(zpat, hdr_infos), re.findall(ppat, hdr_policies)
    ids, bufs = re.findall(idpat, hdr_infos), re.findall(bufpat, hdr_infos)
    o = []
    if cxx:
        o.append('#include <stdio.h>\n#include <string.h>\n#include "zone_infos.h"\n#include "zone_policies.h"\n'
                 '#include "zone_registry.h"\nusing namespace ace_time;\nusing namespace ace_time::%s;\n'
                 'using namespace ace_time::%s;\n' % (ns, scope))
        t = lambda n: 'const %s::%s' % (scope, n)
    else:
        o.append('#include <stdio.h>\n#include <string.h>\n#include "zone_infos.h"\n#include "zone_policies.h"\n'
                 '#include "zone_registry.h"\n')
        t = lambda n: 'const Atc' + n
    o.append('static void hex(const char* s){ putchar(\'"\'); for(;*s;s++) printf("%02x",(unsigned char)*s); putchar(\'"\'); }\n')
    rule = (['fromYear', 'toYear', 'inMonth', 'onDayOfWeek', 'onDayOfMonth', 'atTimeModifier', 'atTimeCode',
             'deltaMinutes', 'letterIndex'] if high else
            ['fromYearTiny', 'toYearTiny', 'inMonth', 'onDayOfWeek', 'onDayOfMonth', 'atTimeModifier',
             'atTimeCode', 'deltaCode', 'letterIndex'])
    era = (['offsetCode', 'offsetRemainder', 'deltaMinutes', 'untilYear', 'untilMonth', 'untilDay', 'untilTimeCode',
            'untilTimeModifier'] if high else
           ['offsetCode', 'deltaCode', 'untilYearTiny', 'untilMonth', 'untilDay', 'untilTimeCode', 'untilTimeModifier'])
    o.append('static void pol(const char* n, %s* p){ printf("P %%s %%p %%d\\n", n, (const void*)p, (int)p->numRules);'
             ' for(int i=0;i<p->numRules;i++){ %s* r=&p->rules[i]; printf("R%s\\n"%s);} }\n'
             % (t('ZonePolicy'), t('ZoneRule'), ' %d' * len(rule), ''.join(',(int)r->' + f for f in rule)))
    o.append('static void zone(const char* n, %s* z){ printf("Z %%s %%p %%lu %%p %%p %%p %%d ", n, (const void*)z, (unsigned long)z->zoneId,'
             ' (const void*)z->zoneContext, (const void*)z->eras, (const void*)z->targetInfo, (int)z->numEras); hex(z->name); puts("");'
             ' for(int i=0;i<z->numEras;i++){ %s* e=&z->eras[i]; printf("E %%p%s ", (const void*)e->zonePolicy%s); hex(e->format); puts(""); } }\n'
             % (t('ZoneInfo'), t('ZoneEra'), ' %d' * len(era), ''.join(',(int)e->' + f for f in era)))
    o.append('int main(void){\n')
    o.append('{ %s* c=&%sZoneContext; printf("C %%p %%d %%d %%d %%d %%d %%d %%d %%d ", (const void*)c,c->startYear,c->untilYear,'
             'c->startYearAccurate,c->untilYearAccurate,%s,c->maxTransitions,c->numFragments,c->numLetters); hex(c->tzVersion); puts("");\n'
             % (t('ZoneContext'), pre, 'c->baseYear' if cxx else '0'))
    o.append('if(c->fragments[0]) puts("FNZ"); for(int i=1;i<c->numFragments;i++){ printf("F "); hex(c->fragments[i]); puts(""); }\n'
             'for(int i=0;i<c->numLetters;i++){ printf("L "); hex(c->letters[i]); puts(""); } }\n')
    if cxx:
        o.append('printf("V "); hex((const char*)kTzDatabaseVersion); puts("");\n')
    for s, n in ps:
        o.append('pol("%s",&%s);\n' % (n, s))
    for s, n in zs:
        o.append('zone("%s",&%s);\n' % (n, s))
    for s, n in ids:
        o.append('printf("I %s %%lu\\n",(unsigned long)%s);\n' % (n, s))
    for s, n in bufs:
        o.append('printf("B %s %%d\\n",(int)%s);\n' % (n, s))
    for r in ('ZoneRegistry', 'ZoneAndLinkRegistry'):
        o.append('printf("S %s %%d %%d\\n",(int)%s%sSize,(int)(sizeof(%s%s)/sizeof(%s%s[0])));\n' % (r, pre, r, pre, r, pre, r))
        o.append('for(unsigned i=0;i<sizeof(%s%s)/sizeof(%s%s[0]);i++) printf("G %s %%p\\n",(const void*)%s%s[i]);\n' % (pre, r, pre, r, r, pre, r))
    o.append('return 0;}\n')
    return ''.join(o)


def decode(out_dir, cxx, scope, ns, base, sanitize=True, pedantic=True):
    ext = 'cpp' if cxx else 'c'
    names = ['zone_infos', 'zone_policies', 'zone_registry']
    texts = {}
    for n in names:
        for x in ('h', ext):
            p = os.path.join(out_dir, '%s.%s' % (n, x))
            need(os.path.exists(p), 'missing %s.%s' % (n, x))
            with open(p, encoding='utf-8', errors='surrogateescape') as f:
                texts['%s.%s' % (n, x)] = f.read()
    build = tempfile.mkdtemp(prefix='vtcc.', dir=os.path.dirname(out_dir))
    try:
        src = os.path.join(build, 'db')
        os.makedirs(src)
        for k, v in texts.items():
            with open(os.path.join(src, k), 'w', encoding='utf-8', errors='surrogateescape') as f:
                f.write(v)
        if cxx:
            inc = ['-I', os.path.join(run.VERIF, 'stubs', 'cxx')]
            cc = ['g++', '-std=c++11', '-Werror=narrowing', '-Werror=overflow']
        else:
            shutil.copytree(os.path.join(run.VERIF, 'stubs', 'c', 'zoneinfo'), os.path.join(build, 'zoneinfo'))
            inc = ['-DVT_HIGH'] if scope == 'complete' else []
            cc = ['gcc', '-std=c11', '-Werror=overflow', '-Werror=conversion', '-Werror=sign-conversion',
                  '-Werror=implicit', '-Werror=incompatible-pointer-types', '-Werror=int-conversion',
                  '-Werror=discarded-qualifiers']
        # "excess elements" is an error in C++ and must be one in C as well
        cc += ['-O0', '-g0', '-Werror=missing-field-initializers', '-Wextra']
        if not cxx and pedantic:        # without zones there are arrays of no element (GNU C)
            cc += ['-pedantic-errors']
        san = SAN if sanitize else []
        with open(os.path.join(src, 'vt_main.' + ext), 'w', encoding='utf-8', errors='surrogateescape') as f:
            f.write(harness(cxx, scope, ns, texts['zone_infos.h'], texts['zone_policies.h']))
        procs = []
        for n in names + ['vt_main']:
            cmd = cc + (san if n != 'x' else []) + inc + ['-c', n + '.' + ext, '-o', n + '.o']
            procs.append((n, subprocess.Popen(cmd, cwd=src, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace')))
        errs = []
        for n, p in procs:
            try:
                out, _ = p.communicate(timeout=400)
            except subprocess.TimeoutExpired:
                p.kill()
                raise ToolError('compiler timeout')
            if p.returncode:
                errs.append((n, out))
        for n, out in errs:
            if 'internal compiler error' in out or 'Killed' in out or 'No space left' in out:
                raise ToolError('compiler died: ' + out[:300])
            m = [l for l in out.split('\n') if 'error' in l]
            raise DecodeError('%s does not compile: %s' % (n, (m or out.split('\n'))[0][:300]))
        r = sh([cc[0]] + san + ['-o', 'vt'] + [n + '.o' for n in names + ['vt_main']], src)
        need(r.returncode == 0, 'link: ' + r.stderr[:400])
        r = sh(['./vt'], src)
        if r.returncode:
            lines = [l for l in r.stderr.split('\n') if 'ERROR' in l or 'runtime error' in l]
            raise DecodeError('walking the compiled tables: exit %d: %s' % (r.returncode, (lines or [r.stderr])[0][:300]))
        return canon(r.stdout, cxx, scope, base, texts)
    finally:
        shutil.rmtree(build, ignore_errors=True)


def _h(s):
    return bytes.fromhex(s.strip('"')).decode('utf-8', 'replace')


def suffix(mod):
    need(mod & 0xf0 in (0, 0x10, 0x20), 'time modifier 0x%02x' % mod)
    return {0: 'w', 0x10: 's', 0x20: 'u'}[mod & 0xf0]


def year_rule(v, tiny, base):
    if not tiny:
        return v
    return NEG_YEAR if v == -127 else INF_TO if v == 126 else base + v


def year_until(v, tiny, base):
    if not tiny:
        return v
    return NEG_YEAR if v == -127 else INF_UNTIL if v == 127 else base + v


def dec_format(f):
    return '%z' if f == '' else f.replace('%', '%s')


def canon(text, cxx, scope, base, texts):
    high = scope == 'complete'
    tiny = not high
    db = {'lang': 'arduino' if cxx else 'c', 'policies': {}, 'zones': {}, 'links': {}, 'link_eras': {}, 'ids': {},
          'bufs': {}, 'fragments': [], 'letters': [], 'raw_names': {}, 'raw_rules': {}, 'raw_eras': {}, 'formats': set(),
          'texts': texts, 'const_ids': {}}
    pols, zs, regs, sizes, ctx = [], [], {'ZoneRegistry': [], 'ZoneAndLinkRegistry': []}, {}, None
    for line in text.split('\n'):
        t = line.split(' ')
        k = t[0]
        if k == 'C':
            ctx = t
            db['ctx'] = dict(start=int(t[2]), until=int(t[3]), start_acc=int(t[4]), until_acc=int(t[5]),
                             tz_version=_h(t[10]), max_transitions=int(t[7]))
            if cxx:
                db['ctx']['base'] = int(t[6])
                if tiny:
                    base = int(t[6])
            db['num_fragments'], db['num_letters'] = int(t[8]), int(t[9])
        elif k == 'FNZ':
            raise DecodeError('fragment 0 is not null')
        elif k == 'F':
            db['fragments'].append(_h(t[1]))
        elif k == 'L':
            db['letters'].append(_h(t[1]))
        elif k == 'V':
            need(_h(t[1]) == db['ctx']['tz_version'], 'kTzDatabaseVersion')
        elif k == 'P':
            pols.append([t[1], t[2], int(t[3]), []])
        elif k == 'R':
            pols[-1][3].append([int(x) for x in t[1:]])
        elif k == 'Z':
            zs.append([t[1], t[2], int(t[3]), t[4], t[5], t[6], int(t[7]), _h(t[8]), []])
        elif k == 'E':
            zs[-1][8].append((t[1], [int(x) for x in t[2:-1]], _h(t[-1])))
        elif k == 'I':
            db['const_ids'][t[1]] = int(t[2])
        elif k == 'B':
            db['bufs'][t[1]] = int(t[2])
        elif k == 'S':
            sizes[t[1]] = (int(t[2]), int(t[3]))
        elif k == 'G':
            regs[t[1]].append(t[2])
    need(ctx is not None, 'no context')
    paddr = {}
    for sym, addr, n, rs in pols:
        need(addr not in paddr, 'policy %s twice' % sym)
        paddr[addr] = sym
        out = []
        for r in rs:
            fy, ty, mo, dow, dom, mod, code, delta, li = r
            need(li < len(db['letters']), 'letter index %d of %d in %s' % (li, len(db['letters']), sym))
            if high:
                at = code * 15 + (mod & 15)
                save = delta * 60
                need(mod & 15 < 15, 'remainder in %s' % sym)
            else:
                at = code * 900 + (mod & 15) * 60
                need(delta <= 15, 'delta code %d in %s' % (delta, sym))
                need(mod & 15 < 15, 'remainder in %s' % sym)
                save = (delta - 4) * 900
            out.append((year_rule(fy, tiny, base), year_rule(ty, tiny, base), mo, dow, dom, at, suffix(mod), save,
                        db['letters'][li]))
        db['policies'][sym] = out
        db['raw_rules'][sym] = rs
    zaddr = {}
    expand = lambda s: ''.join(db['fragments'][ord(c) - 1] if 0 < ord(c) < 32 and ord(c) <= len(db['fragments']) else c for c in s)
    owner = {}
    for z in zs:
        z.append(expand(z[7]))
        need(z[1] not in zaddr, 'zone symbol %s twice' % z[0])
        zaddr[z[1]] = z
    null = ('(nil)', '0x0', '0')
    for sym, addr, zid, zctx, eras, target, n, raw, es, name in zs:
        need(zctx == ctx[1], '%s has another context' % sym)
        need(symbol(name) == sym, 'symbol %s has the name %r' % (sym, name))
        need(name not in db['ids'], 'name %s twice' % name)
        db['ids'][name] = zid
        db['raw_names'][name] = raw
        out = []
        for p, f, fmt in es:
            db['formats'].add(fmt)
            if p in null:
                pol = None
            else:
                need(p in paddr, '%s: era refers to an unknown policy' % name)
                pol = paddr[p]
            if high:
                off = f[0] * 15 + f[1]
                need(f[1] < 15, 'remainder in %s' % sym)
                delta, y, mo, d, code, mod = f[2] * 60, f[3], f[4], f[5], f[6], f[7]
                u = code * 15 + (mod & 15)
            else:
                off = f[0] * 900 + (f[1] >> 4) * 60
                delta, y, mo, d, code, mod = ((f[1] & 15) - 4) * 900, f[2], f[3], f[4], f[5], f[6]
                u = code * 900 + (mod & 15) * 60
            need(mod & 15 < 15, 'remainder in %s' % sym)
            out.append((off, pol, delta, dec_format(fmt), year_until(y, tiny, base), mo, d, u, suffix(mod)))
        db['raw_eras'][name] = [(f, fmt) for p, f, fmt in es]
        if target in null:
            db['zones'][name] = out
            need(eras not in owner, 'zones %s and %s share their eras' % (name, owner.get(eras)))
            owner[eras] = name
        else:
            need(target in zaddr, 'target of %s is not a zone symbol' % name)
            db['links'][name] = zaddr[target][9]
            need(zaddr[target][5] in null, 'target of %s is a link' % name)
            need(eras == zaddr[target][4], 'link %s does not share the eras of its target' % name)
            db['link_eras'][name] = out
    for k in regs:
        need(sizes[k][0] == sizes[k][1] == len(regs[k]), '%s size' % k)
        for a in regs[k]:
            need(a in zaddr, 'entry of %s is not a zone symbol' % k)
    db['registry'] = [zaddr[a][9] for a in regs['ZoneRegistry']]
    db['registry_all'] = [zaddr[a][9] for a in regs['ZoneAndLinkRegistry']]
    need(db['num_fragments'] >= 1 and len(db['letters']) == db['num_letters'] and len(db['fragments']) == max(db['num_fragments'] - 1, 0), 'table counts')
    by_sym = {symbol(n): n for n in db['ids']}
    need({by_sym.get(s): v for s, v in db['const_ids'].items()} == db['ids'] and len(db['const_ids']) == len(db['ids']),
         'zone id constants differ from the records')
    db['bufs'] = {by_sym.get(s, '?' + s): v for s, v in db['bufs'].items()}
    return db
