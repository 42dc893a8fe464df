#!/usr/bin/env python3
"""Generates spec/data/unicode.json, the Unicode tables the specification reads.

Source: Python's unicodedata (UCD 15.0), independent of the ICU library the code
under test uses, patched by hand to Unicode 15.1 (the version of ICU 74): the
only differences in the tables used are the general categories of the code
points added in 15.1.
"""
import json, os, sys, unicodedata as U
assert U.unidata_version.startswith('15.0'), U.unidata_version
N = 0x110000
GCS = ["Cn", "Lu", "Ll", "Lt", "Mn", "Me", "Nd", "Nl", "No", "Zs", "Zl", "Zp", "Cc", "Cf", "Co", "Cs",
       "Pd", "Ps", "Pe", "Pc", "Po", "Sm", "Sc", "Sk", "So", "Pi", "Pf", "Lm", "Lo", "Mc"]
def gc(c):
    if 0x2FFC <= c <= 0x2FFF or c == 0x31EF: return "So"      # 15.1: ideographic description characters
    if 0x2EBF0 <= c <= 0x2EE5D: return "Lo"                   # 15.1: CJK extension I
    return U.category(chr(c))
def runs(f):
    s, v, last = [], [], None
    for c in range(N):
        x = f(c)
        if x != last: s.append(c); v.append(x); last = x
    return dict(s=s, v=v)
WS = [(9, 13), (0x20, 0x20), (0x85, 0x85), (0xA0, 0xA0), (0x1680, 0x1680), (0x2000, 0x200A), (0x2028, 0x2029),
      (0x202F, 0x202F), (0x205F, 0x205F), (0x3000, 0x3000)]   # White_Space, PropList.txt
isws = set(c for a, b in WS for c in range(a, b + 1))
canon, compat, comp, lower = [], [], [], []
for c in range(N):
    d = U.decomposition(chr(c))
    if d:
        p = d.split()
        if p[0].startswith('<'): compat.append([c, [int(x, 16) for x in p[1:]]])
        else:
            m = [int(x, 16) for x in p]; canon.append([c, m])
            # primary composites: not excluded from composition (UAX #15 D114)
            if len(m) == 2 and U.normalize('NFC', chr(c)) == chr(c): comp.append([m[0], m[1], c])
    if not 0xD800 <= c <= 0xDFFF:
        l = chr(c).lower()
        m = 0x69 if c == 0x130 else (ord(l) if len(l) == 1 else c)
        if m != c: lower.append([c, m])
# composition table grouped by first element
cg = {}
for a, b, c in comp: cg.setdefault(a, []).append([b, c])
g = runs(lambda c: gc(c))
out = dict(
    gcs=g['s'], gcv=[x for x in g['v']],
    cccs=(k := runs(lambda c: U.combining(chr(c))))['s'], cccv=k['v'],
    wss=(k := runs(lambda c: 1 if c in isws else 0))['s'], wsv=k['v'],
    canonk=[x[0] for x in canon], canonv=[x[1] for x in canon],
    compatk=[x[0] for x in compat], compatv=[x[1] for x in compat],
    compk=sorted(cg), compv=[sorted(cg[a]) for a in sorted(cg)],
    comp2=sorted(set(b for _, b, _ in comp)),
    lowk=[x[0] for x in lower], lowv=[x[1] for x in lower])
# every code point from which some property or mapping above changes: on [breaks[i], breaks[i+1])
# the specification's per-character functions are uniform (the constants of the CJK, Hangul and
# byte-alphabet ranges included)
br = set(out['gcs']) | set(out['cccs']) | set(out['wss'])
for k in ('canonk', 'compatk', 'compk', 'comp2', 'lowk'): br |= set(out[k]) | {c + 1 for c in out[k]}
br |= set(range(0x180)) | set(range(0xAC00, 0xD7A5)) | {0x1100, 0x1113, 0x1161, 0x1176, 0x11A7, 0x11A8, 0x11C3, 0x7FF, 0x800, 0xE000, 0xFFFF, 0x10000, 0x10FFFF}
for a, b in [(0x4E00, 0x9FFF), (0x3400, 0x4DBF), (0x20000, 0x2A6DF), (0x2A700, 0x2B73F), (0x2B740, 0x2B81F), (0x2B920, 0x2CEAF),
             (0xF900, 0xFAFF), (0x2F800, 0x2FA1F)]: br |= {a, b, b + 1}
out['breaks'] = sorted(c for c in br if not 0xD800 <= c < 0xE000 and c < N)
p = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'spec', 'data', 'unicode.json')
t = '{\n' + ',\n'.join(json.dumps(k) + ':' + json.dumps(v, separators=(',', ':')) for k, v in out.items()) + '\n}\n'
open(p, 'w').write(t)
print({k: len(v) for k, v in out.items()}, len(t), file=sys.stderr)
