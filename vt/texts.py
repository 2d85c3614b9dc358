"""Read the human-readable parts of generated files: headers, section headings,
comment lists."""
import re

from .decode_py import DecodeError, need


def strip(line):
    m = re.match(r'\s*(?://|#)\s?(.*)$', line)
    return m[1] if m else None


def header(text):
    """The comment block before the code -> {'key': value, 'Memory (8-bits)/Rules': ..}"""
    out, sec = {}, ''
    for line in text.split('\n'):
        s = strip(line)
        if s is None:
            break
        if s.startswith('DO NOT EDIT'):
            out['_end'] = True
            break
        m = re.match(r'(\s*)([A-Za-z][A-Za-z0-9/ ()-]*):\s*(.*)$', s)
        m2 = re.match(r'from https://\S*/tag/(\S*)', s)
        if m2:
            out['version'] = m2[1]
        if not m:
            continue
        ind, k, v = m.groups()
        if v == '':
            sec = k
            continue
        out[(sec + '/' if ind and sec else '') + k] = v.strip()
    need('_end' in out, 'no header')
    return out


HEAD = re.compile(r'(Unsup\w*|Notable) (zones|links|zone policies|policies): *(\d+)\s*$')


def comment_sections(text):
    """-> {('removed'|'notable', 'zones'|'links'|'policies'): (count, {name: (reasons, {policy: reasons})})}"""
    out = {}
    lines = text.split('\n')
    i = 0
    while i < len(lines):
        s = strip(lines[i])
        m = HEAD.match(s) if s else None
        i += 1
        if not m:
            continue
        kind = 'notable' if m[1] == 'Notable' else 'removed'
        what = 'policies' if 'polic' in m[2] else m[2]
        entries, stack = {}, []
        started = False
        while i < len(lines):
            l = lines[i]
            s = strip(l)
            if s is None:
                if l.strip():
                    break
                i += 1
                continue
            t = s.strip()
            if re.fullmatch(r'-{5,}', t):
                if started:
                    break
                started = True
                i += 1
                continue
            if HEAD.match(s):
                break
            i += 1
            if not t:
                continue
            if t == '}' and stack:
                stack.pop()
                continue
            m1 = re.match(r'(\S+) \{(.*)\}$', t)
            m2 = re.match(r'(\S+) \{$', t)
            if m2 and len(stack) < 2:
                put(entries, stack, m2[1])
                stack.append(m2[1])
            elif m1 and len(stack) < 2 and not t.endswith(','):
                put(entries, stack, m1[1], m1[2])
            elif stack and t.endswith(','):
                e = entries[stack[0]]
                (e[0] if len(stack) == 1 else e[1][stack[1]]).append(t[:-1])
            else:
                raise DecodeError('comment line %r' % l)
        need(not stack, 'unterminated comment of %s' % stack)
        need((kind, what) not in out, 'section %s %s twice' % (kind, what))
        out[(kind, what)] = (int(m[3]), entries)
    return out


def put(entries, stack, name, reason=None):
    if not stack:
        need(name not in entries, 'comment for %s twice' % name)
        entries[name] = ([], {})
        if reason is not None:
            entries[name][0].append(reason)
    else:
        d = entries[stack[0]][1]
        need(name not in d, 'comment for %s/%s twice' % (stack[0], name))
        d[name] = [reason] if reason is not None else []


def counts(text):
    """All 'label: N' comment lines after the header -> {label: [N..]}"""
    out = {}
    body = text[text.find('DO NOT EDIT'):]
    for line in body.split('\n'):
        s = strip(line)
        if not s:
            continue
        m = re.match(r'([A-Za-z][A-Za-z ]*):\s*(\d+)(?:\s*\((\d+) zones, (\d+) links\))?\s*$', s.strip())
        if m:
            out.setdefault(m[1], []).append((int(m[2]),) + ((int(m[3]), int(m[4])) if m[3] else ()))
            continue
        m = re.match(r'([A-Za-z][A-Za-z ]*):$', s.strip())
        if m:       # a label without its figure
            out.setdefault(m[1], []).append((None,))
    return out


def zonelist(text):
    names, n, version = [], None, None
    for l in text.split('\n'):
        if l.startswith('#'):
            m = re.match(r'#\s*numZones: (\d+)', l)
            if m:
                n = int(m[1])
            m = re.match(r'#\s*from https://\S*/tag/(\S*)', l)
            if m:
                version = m[1]
        elif l:
            names.append(l)
    return dict(names=names, count=n, version=version, ends=text.endswith('\n') or not names)
