"""Long texts, long words, many tokens, large vocabularies: the same calls as in vplans at sizes no counter of the
implementation should notice (beyond a byte, beyond sixteen bits)."""
import random
from vcfg import *
import vplans
from vplans import (new, enc, dec, add, norm_ev, pre_ev, encoding, sentence, bert_like, gpt2_like, llama_like, bytelevel, history, trained_bpe,
                    WORDS, BL, BEHS, u16, settled, added_config, near_text)

SIZES = [140, 270, 530, 1050, 2100, 4200, 10100]
HUGE = [33000, 66000]

def pick(tier, r, n):
    """n sizes up to ten thousand, the thresholds at 256 and 1024 always among them"""
    if tier != 'quick': return SIZES
    return [270, 1050] + r.sample([140, 530, 2100, 4200, 10100], n - 2)

def long_text(g, n, kind=None):
    r = g.r
    kind = kind or r.choice(['words', 'words', 'words', 'runs', 'marks', 'wide', 'gaps'])
    out = []
    while len(out) < n:
        if kind == 'words': out += sentence(g, 12)
        elif kind == 'runs': out += [r.choice(U('ab1.- ') + [0x4E2D, 0xE9, 0x1F600, 0x2581])] * r.choice([1, 2, 40, 300])
        elif kind == 'marks': out += [r.choice(U('aeo '))] + r.sample([0x301, 0x323, 0x300, 0x327, 0x30A, 0x5B0], r.choice([0, 1, 2, 4]))
        elif kind == 'wide': out += [r.choice([0x1F600, 0x20000, 0x1D400, 0x4E2D, 0xFB01, 0x10FFFF]) for _ in range(5)] + [32]
        elif kind == 'gaps': out += [r.choice([32, 32, 10, 9, 0xA0, 0x3000])] * r.choice([1, 3, 50, 270]) + U(r.choice(WORDS))
    return out[:n]

def wp(extra=(), maxc=100):
    toks = ['[UNK]', '[PAD]', '[CLS]', '[SEP]'] + list(dict.fromkeys(WORDS[:40] + list('abcdefghijklmnopqrstuvwxyz') + ['##' + c for c in 'abcdeinorst'] + ['.', ',', '1', '##ing']))
    return dict(k='WordPiece', vocab=[[U(t), 3 * i] for i, t in enumerate(toks)] + [[t, 100000 + i] for i, t in enumerate(extra)], unk=U('[UNK]'), cont=U('##'), maxc=maxc)
def letters_bpe(g, al, n=12):
    toks, merges = vplans.merges_over(g, al, n)
    return dict(k='BPE', vocab=[[t, i] for i, t in enumerate(toks)], merges=merges, drop=0, unk=[], cont=[], eow=[], fuse=False, bf=False, ign=False)
def byte_bpe(g):
    toks, merges = trained_bpe(g, [bytelevel(U(' ' + w)) for w in WORDS[:25]], 25, True)
    v = [list(t) for t in dict.fromkeys(map(tuple, [[BL[b]] for b in range(256)] + toks))]
    return dict(k='BPE', vocab=[[t, i] for i, t in enumerate(v)], merges=merges, drop=0, unk=[], cont=[], eow=[], fuse=False, bf=False, ign=False)

BERTN = dict(k='Bert', clean=True, cjk=True, strip=2, lower=True)
TPL = dict(k='Template', single=[dict(sp=True, id=U('[CLS]'), type=0), dict(sp=False, id=U('A'), type=1), dict(sp=True, id=U('[SEP]'), type=2)],
           specials=[dict(id=U('[CLS]'), ids=[2], toks=[U('[CLS]')]), dict(id=U('[SEP]'), ids=[3], toks=[U('[SEP]')])])
SPLIT = lambda beh='Isolated', inv=False: dict(k='Split', re=dict(k='rep', e=dict(k='cls', neg=False, items=[dict(t='s')]), min=1, max=-1, mode='greedy'), beh=beh, inv=inv)
def pipelines(g):
    ab = [tok('[MASK]', sp=True, ls=True), tok('was', sw=True), tok('é', nz=True)]
    return [cfg(norm=[BERTN], pre=[dict(k='Bert')], model=[wp()], added=ab, dec=[dict(k='WordPiece', prefix=B('##'), cleanup=True)]),
            cfg(pre=[dict(k='ByteLevel', prefix=g.b(), regex=True)], model=[byte_bpe(g)], post=[dict(k='ByteLevel', prefix=True, trim=True)], dec=[dict(k='ByteLevel')]),
            cfg(norm=[dict(k='NFC')], pre=[SPLIT(g.r.choice(BEHS))], model=[wp()], added=ab, post=[TPL], dec=[dict(k='Fuse')])]
def piped(g, c, n):
    t = long_text(g, n)
    for _ in range(3 if n < 5000 else 1):
        i = g.r.randint(n // 2, n - 1); t[i:i] = U(g.r.choice(['[MASK]', ' [MASK]', ' was ', 'é', 'e\u0301']))
    return t

def whole(g, tier, n, huge=(), f=None):
    """encodings of long texts, and one short text after each"""
    gs = []
    for i, size in enumerate(pick(tier, g.r, n) + list(huge)):
        c = g.r.choice(pipelines(g)[::1 if size < 30000 else 2])      # byte-level: not in time
        if f: f(c, size)
        gs.append([new(c), enc(piped(g, c, size), g.b()), enc(sentence(g, 2), True)])
    return gs

def large_C01(g, tier): return whole(g, tier, 6, HUGE[1:])
def large_C02(g, tier):
    def f(c, n):
        if n < 30000: c['trunc'] = [dict(dir=g.r.choice(['Left', 'Right']), strat='LongestFirst', max=g.r.choice([5, 40, 300]), stride=g.r.choice([0, 1, 4]))]; c['post'] = [TPL]
    return whole(g, tier, 5, HUGE[1:], f)
def large_C03(g, tier):
    gs = whole(g, tier, 5, HUGE[1:])
    for n, size in [(dict(k='NFKC'), 300), (dict(k='NFD'), 2100), (dict(k='Replace', p=[32], c=U('<s>')), 5000), (dict(k='Strip', left=True, right=True), 1050), (BERTN, 66000), (dict(k='Prepend', s=U('xyz')), 66000)]:
        gs.append([norm_ev(n, ([32] * 300 if n['k'] == 'Strip' else []) + long_text(g, size))])
    gs.append([norm_ev(dict(k='Prepend', s=[0x2581] * 300), U('ab c')), norm_ev(dict(k='Replace', p=U('b'), c=[0x4E2D] * 300), U('ab cb')), norm_ev(dict(k='Replace', p=U('b' * 300), c=U('x')), U('a' + 'b' * 901 + 'c'))])
    return gs
def large_C04(g, tier):
    r = g.r
    gs = []
    for n in pick(tier, r, 5):
        ts = [tok('ab', sw=g.b()), tok('a' * 10, ls=True), tok('X', nz=True, rs=True), tok('ab' * 150, sp=True)]
        c = added_config(g, ts, r.choice([[], [], [dict(k='NFD')], [BERTN]]), r.choice([[], [dict(k='Bert')]]))
        gs.append([new(c), enc(near_text(g, ts, n // 6), False), enc((U('x' * n) + ts[3]['content'] + U(' ' * n) + ts[1]['content'] + U('xab')), False)])
    # hundreds of tokens, and long ones
    many = [tok('t%d' % i, sp=i % 3 == 0, sw=i % 5 == 0) for i in range(320)]
    c = added_config(g, many[:300])
    gs.append([new(c), enc(sum([many[r.randrange(320)]['content'] + r.choice([[], [32], U('x')]) for _ in range(60)], []), False), add(many), enc(U('t319 t300t299 t3000'), False)])
    long = [tok([97] * n) for n in (130, 260, 1030)]
    gs.append([new(added_config(g, long))] + [enc([98] + [97] * n + [98], False) for n in (129, 130, 131, 259, 260, 390, 1029, 1030, 1031, 2400)])
    return gs
def large_C05(g, tier):
    r = g.r
    gs = []
    for n, batch in ((280, 1), (300, 300), (1100, 50 if tier != 'quick' else 550)):
        model = dict(k='BPE', vocab=[[U(x), i] for x, i in (('x', 0), ('y', n // 2), ('z', n + 5))], merges=[], drop=0, unk=[], cont=[], eow=[], fuse=False, bf=False, ign=True)
        ts = [tok('w%d' % i, sp=g.b(.3)) for i in range(n)]
        ev = [new(cfg(model=[model]))]
        for i in range(0, n, batch):
            ev.append(add(ts[i:i + batch] + ([r.choice(ts[:i])] if i and g.b(.2) else [])))
        for _ in range(3): ev.append(enc(sum([r.choice(ts)['content'] + [32] for _ in range(12)], []), False))
        for s in (True, False): ev.append(dec(list(range(0, n + 8)), s))
        gs.append(ev)
    # a vocabulary whose ids leave gaps below and begin late
    for ids in ([70000, 5, 65535, 65536], [2147483000, 1, 255, 256], [32767, 32768, 40000, 3]):
        model = dict(k='BPE', vocab=[[U(x), i] for x, i in zip('wxyz', ids)], merges=[], drop=0, unk=[], cont=[], eow=[], fuse=False, bf=False, ign=True)
        ts = [tok('t%d' % i, sp=g.b()) for i in range(6)]
        gs.append([new(cfg(model=[model])), add(ts), enc(U('t0 t1 wxyz t5'), False), dec(ids + [x + d for x in ids if x < 2 ** 31 - 20 for d in range(1, 8)], False), dec(ids + [x + d for x in ids if x < 2 ** 31 - 20 for d in range(1, 8)], True)])
    return gs
def norms(g, tier, ns, n=None):
    gs = []
    for x in ns:
        for size, kind in ((300, 'marks'), (g.r.choice([1050, 2100]), None), (g.r.choice([5000, 10100]), None)): gs.append([norm_ev(x, long_text(g, size, kind))])
    return gs
def large_C06(g, tier):
    NFS = [dict(k=k) for k in ('NFC', 'NFD', 'NFKC', 'NFKD')]
    gs = norms(g, tier, NFS)
    for x in NFS:
        gs.append([norm_ev(x, long_text(g, 40000, 'words'))])
        # one character under many marks
        for n in (40, 140, 270): gs.append([norm_ev(x, U('xe') + [g.r.choice([0x301, 0x323, 0x300, 0x327, 0x5B0]) for _ in range(n)] + U('y') + [0x301])])
        gs.append([norm_ev(x, [0xAC00 + i for i in range(0, 11172, 7)] + [0x1100, 0x1161, 0x11A8] * 300), norm_ev(x, [0xFDFA] * 60), norm_ev(x, list(range(0xC0, 0x17F)) * 5)])
    return gs
def large_C07(g, tier):
    bs = [dict(k='Bert', clean=c, cjk=j, strip=s, lower=l) for c in (True, False) for j in (True, False) for s, l in ((0, True), (1, False), (2, True))]
    gs = norms(g, tier, g.r.sample(bs, 5) + [BERTN])
    return gs + [[norm_ev(BERTN, long_text(g, 66000, k))] for k in ('words', 'wide')]
def large_C08(g, tier):
    r = g.r
    ns = [dict(k='Strip', left=True, right=True), dict(k='Strip', left=False, right=True), dict(k='Replace', p=U('a'), c=U('bb')), dict(k='Replace', p=U(' t'), c=[]), dict(k='Prepend', s=U('x')), dict(k='StripAccents'), dict(k='Lowercase')]
    ns = [n for n in ns if n['k'] != 'Lowercase']
    gs = norms(g, tier, ns)
    for n in (140, 270, 1100, 5000, 66000):
        gs.append([norm_ev(ns[0], [r.choice([32, 10, 0x3000])] * n + U('a b') + [32] * n), norm_ev(ns[1], [32] * n + U('a b') + [9] * n), norm_ev(ns[0], [32] * n)])
    gs.append([norm_ev(dict(k='Prepend', s=U('p' * 5000)), U('t')), norm_ev(dict(k='Replace', p=U('ab' * 200), c=U('y' * 300)), U('ab' * 900)), norm_ev(dict(k='Replace', p=U('b'), c=[]), U('ab' * 5000)),
               norm_ev(dict(k='Seq', l=[dict(k='Replace', p=U('a'), c=U('aa'))] * 12), U('xaxa')), norm_ev(dict(k='Seq', l=[dict(k='Prepend', s=U('x'))] * 300), U('b'))])
    return gs
def large_C09(g, tier):
    r = g.r
    gs = []
    for n in pick(tier, r, 6) + [33000]:
        t = long_text(g, n)
        gs.append([pre_ev(dict(k='Bert'), t)]); gs.append([pre_ev(SPLIT(r.choice(BEHS), g.b(.3)), t)])
    for beh in BEHS:
        re = g.good_regex()
        gs.append([pre_ev(dict(k='Split', re=re, beh=beh, inv=g.b(.3)), long_text(g, 400))])
        d = dict(k='Split', re=dict(k='lit', s=U('-'), ci=False), beh=beh, inv=g.b(.3))
        gs.append([pre_ev(d, U('-' * 300)), pre_ev(d, U('a-' * 600)), pre_ev(d, U('a' * 1100 + '-' + 'b' * 300)), pre_ev(d, U('ab--' * 80 + 'é'), [[2 * i, 2 * i + 2, i % 7 == 0] for i in range(160)])])
        gs.append([pre_ev(dict(d, re=dict(k='lit', s=U('ab' * 140), ci=False)), U('ab' * 139 + 'xx' + 'ab' * 433)), pre_ev(dict(d, re=dict(k='rep', e=dict(k='cls', neg=False, items=[dict(t='d')]), min=1, max=r.choice([3, 130, 300]), mode='greedy')), U('1' * 1000 + 'a' + '2' * 260))])
    gs.append([pre_ev(dict(k='Seq', l=[dict(k='Bert'), SPLIT('Removed'), dict(k='Bert')]), long_text(g, 2100))])
    gs.append([pre_ev(dict(k='Split', re=dict(k='alt', l=[dict(k='lit', s=U('w%d' % i), ci=False) for i in range(150)]), beh='Isolated', inv=False), U('w1w149 w150w77xw1490'))])
    return gs
def large_C10(g, tier):
    r = g.r
    gs = []
    for n in pick(tier, r, 5) + [20000]:
        gs.append([pre_ev(dict(k='ByteLevel', prefix=g.b(), regex=True), long_text(g, n))])
        gs.append([pre_ev(dict(k='ByteLevel', prefix=g.b(), regex=False), long_text(g, n))])
    gs.append([pre_ev(dict(k='ByteLevel', prefix=True, regex=True), t) for t in (U('a' * 1100), U('1' * 270 + ' ' * 300 + '!' * 300 + "'s" * 140), [0x1F600] * 300, U(' a' * 300), [32] * 700, [10] * 300 + [32] * 300 + [97])])
    for n in (270, 1050, 5000):
        t = long_text(g, n); bs = bytelevel(t)
        for step in (1, 100, len(bs)): gs.append([dict(op='chain', cfg=dict(k='ByteLevel'), toks=[list(S(bs[i:i + step]).encode()) for i in range(0, len(bs), step)])])
    t = long_text(g, 5000)
    c = cfg(pre=[dict(k='ByteLevel', prefix=False, regex=True)], dec=[dict(k='ByteLevel')], model=[dict(k='BPE', vocab=[[[BL[b]], b] for b in range(256)], merges=[], drop=0, unk=[], cont=[], eow=[], fuse=False, bf=False, ign=False)])
    return gs + [[new(c), enc(t, False), dec(list(S(t).encode()), False)]]
def large_C11(g, tier):
    r = g.r
    gs = []
    W = lambda n, al='ab': [ord(r.choice(al)) for _ in range(n)]
    base = [U('?'), U('a'), U('##a'), U('ab'), U('##ab'), U('##bb'), U('##ba')]
    for maxc in (100, 127, 128, 200, 255, 256, 1000, 1024, 70000):
        ws = [W(n) for n in ((maxc - 1, maxc, maxc + 1, 2 * maxc) if maxc < 1000 else (maxc, maxc + 1)) if n <= 1100] + [U('a' * 300), U('ab' * 200)]
        ws += [w + U('z') for w in ws[:2] if maxc < 1000] + [[97] * n for n in (maxc, maxc + 1) if maxc < 300]
        m = dict(k='WordPiece', vocab=[[t, i] for i, t in enumerate(base + ([U('##b')] if g.b() else []))], unk=U('?'), cont=U('##'), maxc=maxc)
        gs.append([dict(op='model', cfg=m, words=ws, _together=g.b())])
        # characters of several bytes: the limit is one of characters
        x = r.choice([0xE9, 0x4E2D, 0x1F600])
        gs.append([dict(op='model', cfg=dict(m, vocab=[[U('?'), 0], [[x], 1], [U('##') + [x], 2]]), words=[[x] * n for n in (maxc - 1, maxc, maxc + 1) if n <= 600] + [[x] * 300])])
    # long pieces
    for n in (120, 260, 700):
        w = W(n)
        for cut in (1, n // 2, n - 1):
            m = dict(k='WordPiece', vocab=[[t, i] for i, t in enumerate([U('?'), w[:cut], U('##') + w[cut:], w[:cut - 1] or U('q'), U('##') + w[cut - 1:] + U('a'), U('#' * 300)])], unk=U('?'), cont=U('##'), maxc=5000)
            gs.append([dict(op='model', cfg=m, words=[w, w[:-1], w + U('a'), w[:cut], w + w[cut:]])])
        gs.append([dict(op='model', cfg=dict(k='WordPiece', vocab=[[U('?' * n), 5], [U('a'), 1], [U('#' * n) + U('b'), 2]], unk=U('?' * n), cont=U('#' * n), maxc=100), words=[U('ab'), U('abb'), U('b'), U('a')])])
    # many words; a large vocabulary
    gs.append([dict(op='model', cfg=dict(k='WordPiece', vocab=[[t, i] for i, t in enumerate(base)], unk=U('?'), cont=U('##'), maxc=100), words=[W(r.choice([1, 2, 3, 5])) for _ in range(3000)], _together=True)])
    n = 3000 if tier == 'quick' else 20000
    voc = [U('?')] + [U(('##' if i % 2 else '') + '%x' % i) for i in range(n)]
    gs.append([dict(op='model', cfg=dict(k='WordPiece', vocab=[[t, i] for i, t in enumerate(voc)], unk=U('?'), cont=U('##'), maxc=100), words=[U('%x' % r.randrange(2 * n)) + U('%x' % r.randrange(n)) for _ in range(20)])])
    return gs
def large_C12(g, tier):
    r = g.r
    gs = []
    W = lambda n, al='ab': [ord(r.choice(al)) for _ in range(n)]
    for n in (140, 270, 530) + (() if tier == 'quick' else (1050,)):
        m = letters_bpe(g, U('ab'), r.choice([6, 12]))
        gs.append([dict(op='model', cfg=m, words=[W(n), [97] * n, U('ab' * (n // 2)), W(n - 1)], _together=g.b())])
    # merges whose results are long; merges of rank beyond 256 (and 1024)
    dbl = [[97] * (1 << k) for k in range(10)]
    m = dict(k='BPE', vocab=[[t, i] for i, t in enumerate(dbl)], merges=[a + [32] + a for a in dbl[:-1]], drop=0, unk=[], cont=[], eow=[], fuse=False, bf=False, ign=False)
    gs.append([dict(op='model', cfg=m, words=[[97] * n for n in (130, 255, 256, 257, 511, 512, 700)])])
    for total in (300,) if tier == 'quick' else (300, 1100):
        al = [chr(0x4E00 + i) for i in range(40)]
        prs = [(a, b) for a in al for b in al]; r.shuffle(prs)
        prs = prs[:total]
        ms = [U(a + ' ' + b) for a, b in prs]
        m = dict(k='BPE', vocab=[[U(x), i] for i, x in enumerate(al + [a + b for a, b in prs])], merges=ms, drop=0, unk=[], cont=[], eow=[], fuse=False, bf=False, ign=False)
        gs.append([dict(op='model', cfg=m, words=[U(''.join(r.choice(al) for _ in range(6))) for _ in range(20)] + [U(a + b + c) for (a, b), (_, c) in zip(prs[-40:], prs[:40])], _together=g.b())])
    # unknown characters and bytes by the hundred, fused or not
    for fuse in (True, False):
        m = dict(k='BPE', vocab=[[U('<u>'), 0], [U('a'), 1], [U('aa'), 2]], merges=[U('a a')], drop=0, unk=U('<u>'), cont=[], eow=[], fuse=fuse, bf=False, ign=False)
        gs.append([dict(op='model', cfg=m, words=[U('z' * 300), U('z' * 260 + 'aa' + 'y' * 300), [0x1F600] * 300])])
    m = dict(k='BPE', vocab=[[U('<0x%02X>' % b), b] for b in range(256)], merges=[], drop=0, unk=[], cont=[], eow=[], fuse=False, bf=True, ign=False)
    gs.append([dict(op='model', cfg=m, words=[[0x1F600] * 100, list(range(0x80, 0x200)), U('a' * 400)])])
    # ignore_merges on long words; ids beyond sixteen bits
    w = W(400)
    m = letters_bpe(g, U('ab'), 8); m = dict(m, ign=True, vocab=[[t, 65530 + 3 * i] for t, i in m['vocab']] + [[w, 3]])
    gs.append([dict(op='model', cfg=m, words=[w, w[:-1], w + U('a')])])
    gs += [[new(llama_like(g, [sentence(g)])), enc(U(' '.join(r.choice(WORDS) for _ in range(80))), True)] for _ in range(2)]
    return gs
def large_C13(g, tier):
    r = g.r
    gs = []
    for n in (140, 300, 1100):
        e = encoding([[97 + i % 26] for i in range(n)], ids=list(range(n)))
        cs = []
        for d in ('Left', 'Right'):
            for mx in {1, 3, 127, 128, 129, 255, 256, 257, 1000, n - 1, n, n + 1}:
                for s in {0, 1, mx // 2, mx - 1}:
                    if 0 <= s < mx and n / (mx - s) <= 400 and (tier != 'quick' or g.b(.35)): cs.append(dict(op='trunc', cfg=dict(dir=d, strat=r.choice(['LongestFirst', 'OnlyFirst']), max=mx, stride=s), e=e))
        r.shuffle(cs)
        gs += [cs[i:i + 4] for i in range(0, min(len(cs), 16 if tier == 'quick' else 60), 4)]
    def f(c, n):
        mx = r.choice([4, 130, 260, 512, 1000])
        c['trunc'] = [dict(dir=r.choice(['Left', 'Right']), strat='LongestFirst', max=mx, stride=r.choice([0, 1, mx // 2 - 3 if mx > 100 else 1]))]
        if g.b(): c['post'] = [TPL]
    return gs + whole(g, tier, 4, (), f)
def enc_of(g, n, over=()):
    r = g.r
    return encoding([[288] * r.choice([0, 0, 0, 1, 2]) + [97 + i % 26] for i in range(n)], ids=[r.randrange(100000) for _ in range(n)], offs=[[2 * i, 2 * i + 3] for i in range(n)], words=list(range(n)), types=[r.randrange(3) for _ in range(n)], over=over)
def large_C14(g, tier):
    r = g.r
    gs = []
    big = dict(k='Template', single=[dict(sp=True, id=U('S%d' % (i % 7)), type=i % 300) for i in range(150)] + [dict(sp=False, id=U('A'), type=300)] + [dict(sp=True, id=U('S%d' % (i % 7)), type=0) for i in range(150)],
               specials=[dict(id=U('S%d' % k), ids=[70000 + k] * (k + 1), toks=[U('s%d' % k)] * (k + 1)) for k in range(7)])
    long = dict(k='Template', single=[dict(sp=True, id=U('S'), type=0), dict(sp=False, id=U('A'), type=0)], specials=[dict(id=U('S'), ids=list(range(300)), toks=[U('x%d' % i) for i in range(300)])])
    for p in (TPL, big, long, dict(k='ByteLevel', prefix=g.b(), trim=True), dict(k='Seq', l=[dict(k='ByteLevel', prefix=True, trim=True), TPL])):
        for n in (140, 300, 1100) + ((5000,) if p is TPL else ()):
            gs.append([dict(op='post', cfg=p, e=enc_of(g, n, [enc_of(g, 5) for _ in range(r.choice([0, 3, 280] if p is TPL else [0, 3]))]), special=True)])
    gs.append([dict(op='post', cfg=dict(k='ByteLevel', prefix=True, trim=True), e=encoding([[288] * 300 + [97] + [288] * 300, [288] * 700], offs=[[0, 601], [601, 1301]]), special=True)])
    return gs + whole(g, tier, 4, HUGE[1:], lambda c, n: c.update(post=[TPL]))
def large_C15(g, tier):
    r = g.r
    gs = []
    P = lambda **k: dict(dict(dir=r.choice(['Left', 'Right']), fixed=[], id=70000, type=3, tok=U('[PAD]'), mult=0), **k)
    for n in (0, 5, 140, 300, 1100):
        e = enc_of(g, n, [enc_of(g, r.choice([0, 3, 200])) for _ in range(2)])
        gs.append([dict(op='pad', cfg=P(**k), e=e) for k in (dict(mult=128), dict(mult=256), dict(mult=1000), dict(fixed=[256]), dict(fixed=[300], mult=7), dict(fixed=[1025]))][:6 if n < 1000 else 3])
    e = enc_of(g, 3, [enc_of(g, i % 4) for i in range(270)])
    gs.append([dict(op='pad', cfg=P(**k), e=e) for k in (dict(mult=8), dict(fixed=[5]))])
    for n in (2, 300): gs.append([dict(op='pad', cfg=P(fixed=[k], mult=m), e=enc_of(g, n)) for k, m in ((5000, 0), (33000, 0))])
    gs.append([dict(op='pad', cfg=P(mult=k, dir='Right'), e=enc_of(g, 3)) for k in (32768, 65537)])
    return gs + whole(g, tier, 4, (), lambda c, n: c.update(pad=[P(mult=r.choice([128, 512]), fixed=r.choice([[], [1024], [5000]]))]))
def large_C16(g, tier):
    r = g.r
    gs = []
    toks = [B(x) for x in ('a', '##b', '▁c', '▁', ' ', '.', " n't", '<0xC3>', '<0xA9>', '<0xFF>', 'é', '😀', 'do')]
    ds = [dict(k='WordPiece', prefix=B('##'), cleanup=True), dict(k='ByteFallback'), dict(k='Fuse'), dict(k='Strip', c=B(' '), start=1, stop=1), dict(k='Replace', p=B('▁'), c=B(' ')),
          dict(k='Seq', l=[dict(k='Replace', p=B('▁'), c=B(' ')), dict(k='ByteFallback'), dict(k='Fuse'), dict(k='Strip', c=B(' '), start=1, stop=0)]), dict(k='ByteLevel')]
    for d in ds:
        for n in (140, 300, 1100, 5000): gs.append([dict(op='chain', cfg=d, toks=[r.choice(toks) for _ in range(n)])])
        gs.append([dict(op='chain', cfg=d, toks=[x * n]) for x in (B(' '), B('a'), B('▁'), B('##'), B('é'), B('a .'), B("do not")) for n in (300, 1100)])
    gs.append([dict(op='chain', cfg=dict(k='ByteFallback'), toks=[B('<0x%02X>' % b) for b in '😀é中a'.encode() * 120] + [B('x')]), dict(op='chain', cfg=dict(k='ByteFallback'), toks=[B('<0xF0>')] * 300),
               dict(op='chain', cfg=dict(k='ByteFallback'), toks=[B('<0x%02X>' % b) for b in '中'.encode() * 300 + b'\xe4'])])
    gs.append([dict(op='chain', cfg=dict(k='Strip', c=B(c), start=a, stop=b), toks=[B(c * 400), B(c * 400 + 'x' + c * 300), B('x')]) for c in ('y', '中') for a, b in ((255, 0), (256, 300), (1, 257), (300, 300), (70000, 2))])
    vocab = [[U(BS(t)) if t != B('<0xFF>') else U('<0xFF>'), i * 7000] for i, t in enumerate(toks)]
    for n in (300, 1100, 20000):
        c = cfg(model=[dict(k='WordPiece', vocab=vocab, unk=U('?'), cont=U('##'), maxc=10)], added=[tok('a', sp=True), tok('[X]', sp=g.b())], dec=[r.choice(ds)] if n < 5000 else [])
        gs.append([new(c)] + [dec([r.choice([i for _, i in vocab] + [84001, 5, -1, 2 ** 31 - 1]) for _ in range(n)], s) for s in (True, False)])
    return gs
def large_C18(g, tier):
    """many tokenizers, many calls, long texts after short ones"""
    r = g.r
    gs = []
    c = pipelines(g)
    ts = [sentence(g, 4), piped(g, c[0], 1050), piped(g, c[0], 4200), sentence(g, 2)]
    for x in c: gs.append([new(x), new(x)] + [enc(ts[i], True, k) for i, k in ((0, 1), (1, 1), (0, 1), (2, 2), (3, 1), (1, 2), (0, 2), (3, 2), (2, 1))])
    ev = []
    texts = [sentence(g, 3) for _ in range(3)]
    n = 40
    for i in range(n): ev.append(new(cfg(pre=[dict(k='Bert')], model=[dict(wp(), vocab=[[t, d + i] for t, d in wp()['vocab']])])))
    for i in r.sample(range(1, n + 1), n) + [1, 2, n]: ev.append(enc(r.choice(texts), False, i))
    gs.append(ev)
    x = bert_like(g, texts)
    gs.append([new(x)] + [enc(r.choice(texts), g.b()) if g.b(.7) else dec([r.randrange(60) for _ in range(6)], g.b()) for _ in range(400)])
    return gs
def large_C20(g, tier):
    r = g.r
    anycall = lambda **c: dict(op='any', _call=c)
    gs = []
    for c in pipelines(g):
        for n in (5000, 66000):
            gs.append([new(c), anycall(op='enc', k=1, text=piped(g, c, n), special=True), anycall(op='dec', k=1, ids=[r.randrange(0, 90) for _ in range(n)], skip=True)])
    m = letters_bpe(g, U('ab'), 12)
    w = [ord(r.choice('ab')) for _ in range(30000)]
    gs.append([new(cfg(model=[m])), anycall(op='enc', k=1, text=w, special=False), anycall(op='enc', k=1, text=[97] * 50000, special=False)])
    gs.append([new(cfg(model=[wp(maxc=100000)])), anycall(op='enc', k=1, text=U('the' * 2000), special=False)])
    return gs
def large_C21(g, tier):
    r = g.r
    gs = []
    for c in pipelines(g):
        for n in (270, r.choice([1050, 4200]), 20000):
            t = piped(g, c, n)
            ev = [dict(op='jnew', cfg=c), dict(op='jenc', k=1, u=u16(''.join(map(chr, t))), special=True)]
            ids = [i for _, i in c['model'][0]['vocab']]
            ev.append(dict(op='jdec', k=1, ids=[r.choice(ids) for _ in range(min(n, 3000))], skip=g.b()))
            gs.append(ev)
    return gs
def large_C22(g, tier):
    r = g.r
    gs = []
    D = dict(_direct=True)
    for t in (long_text(g, 300), long_text(g, 2100)):
        gs.append([dict(norm_ev(settled(BERTN), t), **D), dict(norm_ev(dict(k='NFKC'), t), **D), dict(pre_ev(dict(k='Bert'), t), **D), dict(pre_ev(dict(k='ByteLevel', prefix=True, regex=True), t), **D)])
    for n in (140, 270, 700):
        w = [r.randrange(3) for _ in range(n)]
        prs = [(a, b) for a in range(3) for b in range(3) if g.b(.6)]; r.shuffle(prs)
        tbl = [[a, b, k, r.randrange(3, 6)] for k, (a, b) in enumerate(prs)]
        gs.append([dict(op='word', syms=[[c, i, 1] for i, c in enumerate(w)], tbl=tbl, drop=0)])
    return gs

LARGE = {k[6:]: v for k, v in list(globals().items()) if k.startswith('large_C')}
