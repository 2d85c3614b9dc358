"""Turn committed compact TZDB sources (tzdata.zi) into the nine plain source
files that the compiler under test reads.  The expansion is purely lexical."""
import os

DATA = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'data')
SOURCES = {
    'main': os.path.join(DATA, 'tzdata-main-2026f.zi'),
    'rearguard': os.path.join(DATA, 'tzdata-rearguard-2026e.zi'),
}
FILES = ['africa', 'antarctica', 'asia', 'australasia', 'backward',
         'etcetera', 'europe', 'northamerica', 'southamerica']
MONTHS = ['Jan', 'Feb', 'Mar', 'Apr', 'May', 'Jun', 'Jul', 'Aug', 'Sep', 'Oct', 'Nov', 'Dec']
DAYS = ['Mon', 'Tue', 'Wed', 'Thu', 'Fri', 'Sat', 'Sun']
DAYFULL = ['monday', 'tuesday', 'wednesday', 'thursday', 'friday', 'saturday', 'sunday']
MONTHFULL = ['january', 'february', 'march', 'april', 'may', 'june', 'july',
             'august', 'september', 'october', 'november', 'december']


def _month(s):
    c = [i for i, m in enumerate(MONTHFULL) if m.startswith(s.lower())]
    assert len(c) == 1, s
    return MONTHS[c[0]]


def _dow(s):
    c = [i for i, d in enumerate(DAYFULL) if d.startswith(s.lower())]
    assert len(c) == 1, s
    return DAYS[c[0]]


def _day(s):
    if s.isdigit():
        return s
    if s.startswith('last'):
        return 'last' + _dow(s[4:])
    for op in ('>=', '<='):
        if op in s:
            a, b = s.split(op)
            return _dow(a) + op + b
    raise ValueError(s)


def _year(s):
    if s == 'o':
        return 'only'
    if s == 'ma':
        return 'max'
    return s


def _era(tok):
    tok = list(tok)
    if len(tok) > 4:
        tok[4] = _month(tok[4])
    if len(tok) > 5:
        tok[5] = _day(tok[5])
    # a fixed amount in RULES is written h:mm in the published source files
    if tok[1] != '-' and tok[1].lstrip('-').isdigit():
        tok[1] = tok[1] + ':00'
    return tok


def expand(zi_path):
    """-> list of (kind, name, lines) blocks in source order."""
    blocks = []
    cur = None
    with open(zi_path, encoding='utf-8') as f:
        for line in f:
            line = line.rstrip('\n')
            if not line or line.startswith('#'):
                continue
            t = line.split()
            if t[0] == 'R':
                t[3] = _year(t[3])
                t[5] = _month(t[5])
                t[6] = _day(t[6])
                blocks.append(('rule', t[1], ['Rule\t' + '\t'.join(t[1:])]))
                cur = None
            elif t[0] == 'L':
                blocks.append(('link', t[2], ['Link\t' + '\t'.join(t[1:])]))
                cur = None
            elif t[0] == 'Z':
                cur = ('zone', t[1], ['Zone\t%s\t%s' % (t[1], '\t'.join(_era(t[2:])))])
                blocks.append(cur)
            else:
                cur[2].append('\t\t\t' + '\t'.join(_era(t)))
    # The compact form keeps chains of links; the published files list only
    # links to zones (the compiler under test refuses the others).
    return blocks


def region(kind, name):
    head = name.split('/')[0]
    table = {'Africa': 'africa', 'Antarctica': 'antarctica', 'Asia': 'asia',
             'Australia': 'australasia', 'Pacific': 'australasia',
             'Indian': 'asia', 'Europe': 'europe', 'Atlantic': 'europe',
             'Etc': 'etcetera', 'America': 'northamerica'}
    if kind == 'link':
        return 'backward'
    if kind == 'rule':
        return FILES[sum(map(ord, name)) % 4]  # anywhere is legal
    return table.get(head, 'southamerica')


def write_blocks(blocks, out_dir, region_fn=region):
    os.makedirs(out_dir, exist_ok=True)
    buckets = {f: [] for f in FILES}
    for kind, name, lines in blocks:
        buckets[region_fn(kind, name)].extend(lines)
    for f in FILES:
        with open(os.path.join(out_dir, f), 'w', encoding='utf-8') as fh:
            fh.write('# tz file %s\n' % f)
            for l in buckets[f]:
                fh.write(l + '\n')


def write_real(which, out_dir):
    write_blocks(expand(SOURCES[which]), out_dir)
    return out_dir
