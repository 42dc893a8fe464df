"""What each check explores: for every property, batches of groups.  A group is a list of
events in the specification's terms; the calls made on the real code are rendered from
them.  Keys that start with '_' are for the driver only."""
import copy, itertools, json, os, random
from vcfg import *
import vcfg
from vgen import *

UNI = None
def unicode_tables():
    global UNI
    if UNI is None:
        UNI = json.load(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'spec', 'data', 'unicode.json')))
    return UNI

# ---------------------------------------------------------------- events -> calls
def call_of(e):
    op = e['op']
    if '_call' in e:
        return e['_call']
    if e.get('_direct') or 'args' in e:     # the component made by its constructor
        c = call_of({k: v for k, v in e.items() if k not in ('_direct', 'args')})
        return dict(c, direct=True, args=e.get('args', -1), **{k[1:]: e[k] for k in ('_bare', '_size') if k in e})
    if op == 'lookup': return dict(op=op, json=dumps(vcfg.model(e['cfg'])), ask=e['ask'], ids=e['ids'])
    if op == 'reg':
        return dict(op=op, model=vcfg._o(vcfg.model, e['model']), norm=vcfg._o(vcfg.norm, e['norm']), **{k: e[k] for k in ('batches', 'ids', 'ask', 'texts')})
    if op in ('cut', 'word', 'bytemap', 'move'): return {k: v for k, v in e.items() if not k.startswith('_')}
    if op == 'new' and 'src' in e:
        return dict(op='new', bytes=e['src'])
    if op == 'new':
        return dict(op='new', json=dumps(vcfg.tokenizer(e['cfg'])))
    if op == 'jnew' and 'u' not in e:
        return dict(op='jnew', u=u16(dumps(vcfg.tokenizer(e['cfg']))))
    if op == 'jpar': return dict(op=op, threads=[[call_of(x) for x in t] for t in e['threads']], rounds=e.get('rounds', 1))
    if op in ('add', 'enc', 'dec', 'any', 'jnew', 'jenc', 'jdec'):
        return {k: v for k, v in e.items() if not k.startswith('_')}
    if op == 'norm': return dict(op=op, json=dumps(vcfg.norm(e['cfg'])), **{'in': e['in']})
    if op == 'pre': return dict(op=op, json=dumps(vcfg.pre(e['cfg'])), n=e['n'], s=e['s'])
    if op == 'model': return dict(op=op, json=dumps(vcfg.model(e['cfg'])), words=e['words'], together=e.get('_together', False))
    if op in ('chain', 'join'): return dict(op=op, json=dumps(vcfg.dec(e['cfg'])), toks=e['toks'])
    if op == 'trunc': return dict(op=op, json=dumps(vcfg.trunc(e['cfg'])), e=e['e'])
    if op == 'post': return dict(op=op, json=dumps(vcfg.post(e['cfg'])), e=e['e'], special=e['special'])
    if op == 'pad': return dict(op=op, json=dumps(vcfg.pad(e['cfg'])), e=e['e'])
    if op == 'par': return dict(op=op, threads=[[call_of(x) for x in t] for t in e['threads']], rounds=e.get('rounds', 1), timeout=120)
    if op == 'sweep':
        c = dict(op=op, comp=e['comp'], pre=e['pre'], suf=e['suf'], ranges=e['_ranges'], timeout=400)
        if e['comp'] == 'enc': c['k'] = e['k']
        elif e['comp'] in ('toutf8', 'fromutf8'): pass
        else: c['json'] = dumps((vcfg.norm if e['comp'] in ('norm', 'align') else vcfg.pre)(e['cfg']))
        return c
    raise ValueError(op)

def u16(s):
    """UTF-16 code units"""
    b = s.encode('utf-16-le', 'surrogatepass')
    return [b[i] | b[i + 1] << 8 for i in range(0, len(b), 2)]

def event_of(e, out):
    r = {k: v for k, v in e.items() if not k.startswith('_')}
    r['out'] = out
    return r

def record(events, outs):
    """the trace of one session"""
    tr = []
    for e, o in zip(events, outs):
        if e['op'] in ('par', 'jpar'):
            if 'crash' in o or not o.get('ok'):
                tr.append(dict(op='any', out=o if 'crash' in o else dict(crash='parallel section failed')))
                continue
            had = set()
            for th, res in zip(e['threads'], o['v']):
                for r in range(e.get('rounds', 1)):
                    for k, x in enumerate(th):
                        ev = event_of(x, res[r * len(th) + k])
                        h = json.dumps(ev, sort_keys=True)
                        if h not in had: had.add(h); tr.append(ev)      # the same call with the same result says nothing new
        elif e['op'] == 'sweep' and o.get('ok'):
            v = o['v']
            for i in range(0, len(v), 1500):      # pieces TLC can share out
                tr.append(event_of(e, dict(ok=True, v=v[i:i + 1500])))
        else:
            tr.append(event_of(e, o))
    return tr

# ---------------------------------------------------------------- event builders
def new(c, accept=True, **k): return dict(op='new', cfg=c, accept=accept, **k)
def enc(t, special=True, k=1): return dict(op='enc', k=k, text=t, special=special)
def dec(ids, skip=True, k=1): return dict(op='dec', k=k, ids=ids, skip=skip)
def add(toks, k=1, via=False):
    e = dict(op='add', k=k, toks=toks)
    if via: e['_call'] = dict(op='add', k=k, toks=toks, viaspecial=True)
    return e
def norm_ev(n, t, o=None):
    return dict(op='norm', cfg=n, **{'in': dict(c=t, o=o if o is not None else [[i, i + 1] for i in range(len(t))])})
def pre_ev(p, t, splits=None, o=None):
    return dict(op='pre', cfg=p, n=dict(c=t, o=o if o is not None else [[i, i + 1] for i in range(len(t))]),
                s=splits if splits is not None else [[0, len(t), False]])
def encoding(toks, ids=None, offs=None, over=(), words=None, types=None, spec=None, att=None):
    n = len(toks)
    return dict(ids=ids if ids is not None else list(range(n)), types=types or [0] * n, toks=toks, words=words or list(range(n)),
                offs=offs or [[i, i + 1] for i in range(n)], spec=spec or [0] * n, att=att or [1] * n, over=list(over))

# ---------------------------------------------------------------- code point ranges
SUR = (0xD800, 0xDFFF)
def full_ranges(parts=8):
    step = 0x110000 // (parts * 4)
    out = [[] for _ in range(parts)]
    for i in range(parts * 4):
        lo, hi = i * step, (0x110000 if i == parts * 4 - 1 else (i + 1) * step) - 1
        for a, b in ((lo, min(hi, 0xD7FF)), (max(lo, 0xE000), hi)):
            if a <= b: out[i % parts].append([a, b])
    return out
def near_ranges(rng, parts=8, inside=8, edge=8, small=64):
    """every code point near a break point of the tables, samples of the uniform areas between"""
    b = unicode_tables()['breaks'] + [0x110000]
    pts = []
    for x, y in zip(b, b[1:]):
        if x <= 0xD7FF < y: y = 0xD800
        if y - x <= small: pts.append([x, y - 1])
        else:
            pts.append([x, x + edge - 1])
            for _ in range(inside):
                c = rng.randrange(x + edge, y - edge); pts.append([c, c])
            pts.append([y - edge, y - 1])
    ranges = []
    for a, c in sorted(pts):
        if ranges and a <= ranges[-1][1] + 1: ranges[-1][1] = max(ranges[-1][1], c)
        else: ranges.append([a, c])
    # share them out by number of points
    out, load = [[] for _ in range(parts)], [0] * parts
    for a, c in ranges:
        while a <= c:
            k = load.index(min(load)); e = min(c, a + 2000); out[k].append([a, e]); load[k] += e - a + 1; a = e + 1
    return [r for r in out if r]
def literals(x):
    """the code points a configuration names"""
    if isinstance(x, dict): return set().union(*[literals(v) for v in x.values()]) if x else set()
    if isinstance(x, list): return set().union(*[literals(v) for v in x]) if x else set()
    return {x, x + 1} if isinstance(x, int) and not isinstance(x, bool) and 0 <= x < 0x10FFFF else set()
def sweeps(comp, cfg, pre, suf, ranges, k=None, setup=()):
    """one group per part of the ranges"""
    out = []
    for r in ranges:
        e = dict(op='sweep', comp=comp, cfg=cfg, pre=pre, suf=suf, all=False, _ranges=r)
        lit = sorted(c for c in literals([cfg, pre, suf]) if c >= 0x180 and not 0xD800 <= c < 0xE000)
        e['_ranges'] = cut_at(r, lit)
        if k: e['k'] = k
        out.append(list(setup) + [e])
    return out
def cut_at(ranges, points):
    out = []
    for a, b in ranges:
        for p in points:
            if a < p <= b: out.append([a, p - 1]); a = p
        out.append([a, b])
    return out

# ---------------------------------------------------------------- whole-tokenizer sessions
def own_strings(c):
    """the texts a configuration is made of"""
    out = []
    def walk(x):
        if isinstance(x, dict):
            for k, v in x.items():
                if k in ('s', 'p', 'c', 'unk', 'cont', 'eow', 'tok', 'content', 'prefix'):
                    if isinstance(v, list) and v and all(isinstance(y, int) for y in v): out.append(v)
                    elif isinstance(v, list): out.extend(y for y in v if isinstance(y, list) and y)
                elif k == 'toks': out.extend(y for y in v if y)
                elif k == 'vocab': out.extend(t for t, _ in v[:12] if t)
                elif k not in ('re', 'dec', 'merges'): walk(v)
        elif isinstance(x, list):
            for y in x: walk(y)
    walk(c)
    return [t for t in out if isinstance(t, list) and len(t) <= 12 and all(isinstance(y, int) and (0 <= y < 0xD800 or 0xDFFF < y <= 0x10FFFF) for y in t)]
def own_ids(c):
    out = [t['id'] for t in c['added']] + [p['id'] for p in c['pad']]
    def walk(x):
        if isinstance(x, dict):
            for k, v in x.items():
                if k == 'ids': out.extend(v)
                else: walk(v)
        elif isinstance(x, list):
            for y in x: walk(y)
    walk(c['post'])
    return out
def some_ids(g, c):
    """ids to decode: known, of added and template tokens, and unknown ones"""
    r = g.r
    ids = [i for m in c['model'] for _, i in m['vocab']] or [0]; own = own_ids(c); top = max(ids + own) + 9
    pick = lambda: r.choice(own) if own and g.b(.15) else r.choice(ids) if g.b(.75) else r.choice([r.randrange(0, top), r.randrange(0, 2 ** 31), -r.randrange(1, 9)])
    return [pick() for _ in range(r.choice([0, 1, 2, 4, 6]))]
def echo(g, c, texts):
    """a text made of the configuration's own texts"""
    r = g.r
    own = own_strings(c)
    if not own: return None
    t = []
    for _ in range(r.choice([1, 2, 3, 4])):
        t += r.choice(own) + r.choice([[], [], [32], [32], [97], [46]])
    if texts and g.b(.4):
        x = r.choice(texts); i = r.randint(0, len(x)); t = x[:i] + t[:8] + x[i:]
    return t[:60]
def session(g, c, texts, n_enc=None, adds=1, decs=2, maxid=None):
    """construct, encode, register, encode again, decode"""
    r = g.r
    ev = [new(c)]
    ids = [i for m in c['model'] for _, i in m['vocab']]
    top = max(ids + [0]) + 8
    for t in texts: ev.append(enc(t, g.b()))
    mine = echo(g, c, texts) if g.b(.6) else None
    if mine: ev.append(enc(mine, g.b()))
    for _ in range(adds):
        if g.b(.6):
            ev.append(add(g.added(r.choice([1, 1, 2, 3]), contents=[w for t in texts for w in g.words(t) if len(w) < 6][:3]), via=g.b(.4)))
            for t in texts[:2]: ev.append(enc(t, g.b()))
    own = own_ids(c)
    for _ in range(decs):
        ev.append(dec([r.choice(own) if own and g.b(.2) else r.choice(ids) if ids and g.b(.7) else r.randrange(-1, top) for _ in range(r.choice([0, 1, 2, 4, 8]))], g.b()))
    return ev
def random_session(g, **bias):
    texts = [g.text() for _ in range(g.r.choice([2, 3, 3]))]
    c = g.config(texts)
    for f in bias.get('force', ()): f(g, c, texts)
    return session(g, c, texts)
def force(**parts):
    """replace parts of a configuration: trunc=, pad=, ... are functions of g returning an optional"""
    def f(g, c, texts):
        for k, v in parts.items(): c[k] = v(g)
    return f

# realistic pipelines --------------------------------------------------------
WORDS = "the of and to in a is that it was for on are as with his they at be this have from or had by hot but some what there we can out other were all your when up use word how said an each she which do their time if will way about many then them would write like so these her long make thing see him two has look more day could go come did my sound no most number who over know water than call first people may down side been now find".split()
EXTRA = ["naïve", "café", "Ünïcödé", "北京", "東京都", "русский", "Ελλάδα", "𝒳𝒴", "😀😃", "don't", "we'll", "I'VE", "it's", "U.S.A.", "3.14", "1,000", "a-b", "e-mail", "x=y", "$5", "100%", "ﬁne",
         "Å", "İstanbul", "Straße", "한국어", "ひらがな", "नमस्ते", "مرحبا", "tab\tsep", "new\nline", "  two", "trail ", "　wide", "\u200bzw", "q\u0301", "\u00ad", "a_b", "__init__", "<html>", "&amp;"]
def sentence(g, n=None):
    r = g.r
    out = []
    for _ in range(n or r.randint(1, 9)):
        w = r.choice(WORDS) if g.b(.65) else r.choice(EXTRA)
        if g.b(.15): w = w.upper()
        elif g.b(.15): w = w.capitalize()
        out.append(w)
        out.append(r.choice([' ', ' ', ' ', ' ', '  ', ', ', '. ', '! ', '', '\n', '\t', '-', "'", '…', ' \u00a0']))
    return U(''.join(out))
def bert_like(g, texts):
    words = [w for t in texts for w in g.words(t)]
    low = [U(S(w).lower()) for w in words]
    pieces = []
    for w in low + [U(w) for w in WORDS[:40]]:
        i = 0
        while i < len(w):
            j = min(len(w), i + g.r.choice([1, 1, 2, 3, 6])); pieces.append((U('##') if i else []) + w[i:j]); i = j
        if g.b(.4): pieces.append(w)
    sp = [U('[PAD]'), U('[UNK]'), U('[CLS]'), U('[SEP]'), U('[MASK]')]
    m = dict(k='WordPiece', vocab=[[t, i] for i, t in enumerate(dict.fromkeys(map(tuple, sp + pieces)))], unk=U('[UNK]'), cont=U('##'), maxc=100)
    m['vocab'] = [[list(t), i] for t, i in m['vocab']]
    tpl = dict(k='Template', single=[dict(sp=True, id=U('[CLS]'), type=0), dict(sp=False, id=U('A'), type=0), dict(sp=True, id=U('[SEP]'), type=0)],
               specials=[dict(id=U('[CLS]'), ids=[2], toks=[U('[CLS]')]), dict(id=U('[SEP]'), ids=[3], toks=[U('[SEP]')])])
    return cfg(trunc=[dict(dir='Right', strat='LongestFirst', max=g.r.choice([8, 12, 512]), stride=g.r.choice([0, 2]))] if g.b() else [],
               pad=[dict(dir='Right', fixed=g.r.choice([[], [12]]), id=0, type=0, tok=U('[PAD]'), mult=g.r.choice([0, 8]))] if g.b() else [],
               added=[tok('[PAD]', sp=True), tok('[UNK]', sp=True, id=1), tok('[CLS]', sp=True, id=2), tok('[SEP]', sp=True, id=3), tok('[MASK]', sp=True, ls=g.b(), id=4)],
               norm=[dict(k='Bert', clean=True, cjk=True, strip=2, lower=g.b(.8))], pre=[dict(k='Bert')], model=[m], post=[tpl],
               dec=[dict(k='WordPiece', prefix=B('##'), cleanup=True)])
def trained_bpe(g, words, n, bytelevel, **opts):
    """merges learnt from the words, as a trainer would"""
    corpus = [[ [c] for c in w] for w in words if w]
    merges, toks = [], [[c] for w in corpus for [c] in w]
    for _ in range(n):
        cnt = {}
        for w in corpus:
            for a, b in zip(w, w[1:]): cnt[(tuple(a), tuple(b))] = cnt.get((tuple(a), tuple(b)), 0) + 1
        cnt = {k: v for k, v in cnt.items() if 32 not in k[0] and 32 not in k[1]}
        if not cnt: break
        m = max(sorted(cnt), key=lambda k: cnt[k])
        a, b = list(m[0]), list(m[1])
        merges.append(a + [32] + b); toks.append(a + b)
        for x, w in enumerate(corpus):
            y, o = 0, []
            while y < len(w):
                if y + 1 < len(w) and w[y] == a and w[y + 1] == b: o.append(a + b); y += 2
                else: o.append(w[y]); y += 1
            corpus[x] = o
    return toks, merges
def gpt2_like(g, texts):
    words = [bytelevel(w if g.b(.3) else [32] + w) for t in texts for w in g.words(t)] + [bytelevel(U(' ' + w)) for w in WORDS[:25]]
    toks, merges = trained_bpe(g, words, g.r.choice([10, 30]), True)
    toks = [[BL[b]] for b in range(256)] + toks + [U('<|endoftext|>')]
    v = [list(t) for t in dict.fromkeys(map(tuple, toks))]
    m = dict(k='BPE', vocab=[[t, i] for i, t in enumerate(v)], merges=merges, drop=0, unk=[], cont=[], eow=[], fuse=False, bf=False, ign=g.b(.2))
    pfx = g.b()
    return cfg(added=[tok('<|endoftext|>', sp=True)], pre=[dict(k='ByteLevel', prefix=pfx, regex=True)], model=[m],
               post=[dict(k='ByteLevel', prefix=pfx, trim=g.b())], dec=[dict(k='ByteLevel')],
               norm=[dict(k='NFC')] if g.b(.3) else [])
def llama_like(g, texts):
    words = [[0x2581] + w for t in texts for w in g.words(t)] + [[0x2581] + U(w) for w in WORDS[:25]]
    toks, merges = trained_bpe(g, words, g.r.choice([10, 30]), False)
    v = [U('<unk>'), U('<s>'), U('</s>')] + [U('<0x%02X>' % b) for b in range(256)] + [t for t in toks if g.b(.95)]
    v = [list(t) for t in dict.fromkeys(map(tuple, v))]
    m = dict(k='BPE', vocab=[[t, i] for i, t in enumerate(v)], merges=merges, drop=0, unk=U('<unk>'), cont=[], eow=[], fuse=True, bf=True, ign=False)
    tpl = dict(k='Template', single=[dict(sp=True, id=U('<s>'), type=0), dict(sp=False, id=U('A'), type=0)], specials=[dict(id=U('<s>'), ids=[1], toks=[U('<s>')])])
    return cfg(added=[tok('<unk>', sp=True), tok('<s>', sp=True), tok('</s>', sp=True)],
               norm=[dict(k='Seq', l=[dict(k='Prepend', s=[0x2581]), dict(k='Replace', p=[32], c=[0x2581])])], model=[m], post=[tpl],
               dec=[dict(k='Seq', l=[dict(k='Replace', p=B('▁'), c=B(' ')), dict(k='ByteFallback'), dict(k='Fuse'), dict(k='Strip', c=B(' '), start=1, stop=0)])])
REAL = [bert_like, gpt2_like, llama_like]
def real_session(g):
    texts = [sentence(g) for _ in range(3)]
    c = g.r.choice(REAL)(g, texts)
    ev = session(g, c, texts, decs=3)
    return ev

# ================================================================ the plans
# plan(g, tier, round) -> list of groups; round 0 holds the systematic part
def reps(f, n):
    return [f() for _ in range(n)]

def scale(tier, quick, thorough=None):
    return quick if tier == 'quick' else (thorough or quick * 2)

def plan_C01(g, tier, rnd):
    gs = []
    if rnd == 0:
        # every combination of present and absent stages
        for bits in range(256):
            texts = [g.text(g.r.choice([1, 4, 7, 12]), small=False) for _ in range(2)]
            c = g.config(texts)
            parts = dict(trunc=g.trunc, pad=g.pad, added=lambda: g.added(3, contents=[w for t in texts for w in g.words(t) if len(w) < 6][:3]),
                         norm=g.norm, pre=g.pre, model=lambda: (c['model'] or [g.wordpiece([w for t in texts for w in g.words(t)] or [U('a')])])[0], post=g.post, dec=g.dec)
            for n, k in enumerate(parts):
                if k == 'added': c[k] = parts[k]() if bits >> n & 1 else []
                else: c[k] = [parts[k]()] if bits >> n & 1 else []
            gs.append([new(c)] + [enc(t, g.b()) for t in texts])
        gs += reps(lambda: real_session(g), 40)
    gs += reps(lambda: random_session(g), scale(tier, 500))
    gs += reps(lambda: real_session(g), 40)
    return gs

def plan_C02(g, tier, rnd):
    f = [force(trunc=lambda g: [g.trunc()] if g.b(.8) else [], pad=lambda g: [g.pad()] if g.b(.7) else [], post=lambda g: [g.post()] if g.b(.8) else [])]
    gs = reps(lambda: random_session(g, force=f), scale(tier, 600))
    gs += reps(lambda: real_session(g), 60)
    return gs

def moved(g, n):
    """an alignment as earlier edits may have left it"""
    o, at = [], 0
    for _ in range(n):
        w = g.r.choice([0, 1, 1, 1, 2, 3])
        a = max(0, at - g.r.choice([0, 0, 0, 1])); o.append([a, max(a + 1, at + w)]); at += w
    return o
def plan_C03(g, tier, rnd):
    gs = []
    if rnd == 0:
        rs = near_ranges(g.r) if tier == 'quick' else full_ranges()
        ns = [dict(k='NFC'), dict(k='NFD'), dict(k='NFKC'), dict(k='NFKD'), dict(k='StripAccents'), dict(k='Strip', left=True, right=True),
              dict(k='Bert', clean=True, cjk=True, strip=1, lower=True), dict(k='Prepend', s=U('xy')), dict(k='Replace', p=U('a'), c=U('bcd'))]
        for n in ns:
            for p, s in (([], []), (U('a'), [0x301]), ([0x4E2D], U('ab'))):
                gs += sweeps('align', n, p, s, rs)
        for p in (dict(k='ByteLevel', prefix=True, regex=False), dict(k='Bert')):
            gs += sweeps('cut', p, U('a'), U('b'), near_ranges(g.r))
    for _ in range(scale(tier, 150)):
        gs.append([norm_ev(g.norm(), t, moved(g, len(t))) for t in [g.text() for _ in range(4)]])
        gs.append([pre_event(g) for _ in range(4)])
    chain = lambda g: [dict(k='Seq', l=[g.norm() for _ in range(g.r.choice([1, 2, 3, 4]))])] if g.b(.85) else [g.norm()]
    pres = lambda g: [g.pre(kinds=['ByteLevel', 'ByteLevel', 'Bert', 'Split', 'Seq'])] if g.b(.8) else []
    def one():
        texts = [g.text() for _ in range(3)]
        c = g.config(texts); c['norm'] = chain(g); c['trunc'] = []
        if g.b(.5): c['pre'] = pres(g)
        return session(g, c, texts)
    gs += reps(one, scale(tier, 450))
    gs += reps(lambda: real_session(g), 40)
    return gs

# ---- added tokens
def added_config(g, toks, norm=None, pre=None, words=()):
    al = sorted({c for t in toks for c in t['content']} | set(U('abxyz .,')) | {c for w in words for c in w})
    m = dict(k='BPE', vocab=[[[c], i] for i, c in enumerate(al)], merges=[], drop=0, unk=[], cont=[], eow=[], fuse=False, bf=False, ign=False)
    return cfg(added=toks, norm=norm or [], pre=pre or [], model=[m])
def near_text(g, toks, n=None):
    """a text around the contents"""
    r = g.r
    out = []
    for _ in range(n or r.randint(1, 7)):
        x = r.random()
        c = r.choice(toks)['content'] if toks else U('a')
        if x < .5: out += c
        elif x < .6: out += c[:r.randint(0, len(c))]
        elif x < .68: out += U(S(c).upper()) if g.b() else U(S(c).lower())
        elif x < .85: out += [r.choice([32, 32, 9, 10, 0x85, 0xA0, 0x2003, 0x3000, 0x200B])] * r.choice([1, 1, 2])
        else: out += [r.choice(U('abxyz.,_-0') + [0xE9, 0x301, 0x4E2D, 0x1F600, 0x663, 0x2160, 0x203F, 0xB2, 0x200D])]
    return out
def added_set(g):
    r = g.r
    base = [U(x) for x in ('a', 'ab', 'abc', 'b', 'ba', 'bc', 'aa', 'aab', 'x y', ' a', 'a ', '[M]', 'é', 'É', '中', '😀', 'ﬁ', '  ', ' ', '.', 'X', 'AB')] + [[0x65, 0x301], [0x301], [0x1F600, 0x1F3FD]]
    if g.b(.3): base += [g.text(r.choice([1, 2, 3])) or U('q') for _ in range(3)]
    out = []
    for _ in range(r.choice([1, 2, 2, 3, 4, 6])):
        out.append(tok(r.choice(base), sw=g.b(.3), ls=g.b(.3), rs=g.b(.3), nz=g.b(.4), sp=g.b(.3), id=r.choice([0, 7])))
    return out
def plan_C04(g, tier, rnd):
    r = g.r
    gs = []
    if rnd == 0:
        rs = near_ranges(g.r)
        # who touches a single_word token; what lstrip and rstrip take
        for kw, p, s in ((dict(sw=True), [], U('ab')), (dict(sw=True), U('ab'), []), (dict(ls=True), U('x'), U('ab')), (dict(rs=True), U('ab'), U('x')),
                         (dict(ls=True, rs=True), U('ab'), U('ab'))):
            for nz in (False, True):
                toks = [tok('ab', nz=nz, **kw)]
                c = added_config(g, toks)
                al = [x for x in range(0x30, 0x7B)]
                c['model'] = [dict(k='WordPiece', vocab=[[U('?'), 0]], unk=U('?'), cont=[], maxc=100)]
                gs += sweeps('enc', 0, p, s, rs, k=1, setup=[new(c)])
        # every text of up to 5 characters over a small alphabet, against sets of tokens
        sets = [[tok('a'), tok('ab'), tok('b')], [tok('ab', sw=True), tok('a')], [tok('ba', ls=True), tok('ab', rs=True)], [tok('aa', sw=True, ls=True, rs=True)],
                [tok('a', nz=True), tok('aa')], [tok('a b'), tok('b', ls=True, nz=True)], [tok('aab'), tok('ab', sw=True), tok('a', rs=True)]]
        al = U('ab ') + [0x5F]
        for ts in sets:
            c = added_config(g, ts)
            texts = [list(t) for n in range(5 if tier == 'quick' else 6) for t in itertools.product(al, repeat=n)]
            for i in range(0, len(texts), 80):
                gs.append([new(c)] + [enc(t, False) for t in texts[i:i + 80]])
    def one():
        ts = added_set(g)
        norm = r.choice([[], [], [dict(k='NFC')], [dict(k='NFD')], [dict(k='NFKC')], [dict(k='Bert', clean=g.b(), cjk=g.b(), strip=r.randrange(3), lower=g.b())],
                         [dict(k='Prepend', s=[0x2581])], [dict(k='Replace', p=[32], c=[0x2581])], [dict(k='StripAccents')], [dict(k='Strip', left=g.b(), right=g.b())],
                         [dict(k='Replace', p=U('b'), c=U('aa'))], [g.norm()]])
        pre = r.choice([[], [], [dict(k='Bert')], [dict(k='ByteLevel', prefix=g.b(), regex=g.b())], [g.pre()]])
        c = added_config(g, ts, norm, pre)
        ev = [new(c)] + [enc(near_text(g, ts), False) for _ in range(5)]
        if g.b(.5):
            more = added_set(g)
            ev.append(add(more, via=g.b(.3)))
            ev += [enc(near_text(g, ts + more), False) for _ in range(3)]
        return ev
    gs += reps(one, scale(tier, 700))
    return gs

def plan_C05(g, tier, rnd):
    r = g.r
    def one():
        conts = [U(x) for x in ('a', 'b', 'ab', 'A', '[X]', 'é', 'q q')] + [[0x1F600], []]
        vs = r.sample(conts[:-1], r.choice([0, 1, 2, 3])) + [U('x'), U('y')]
        ids = r.choice([list(range(len(vs))), r.sample(range(12), len(vs)), [5 * i for i in range(len(vs))], [1000 - i for i in range(len(vs))]])
        model = [dict(k='BPE', vocab=[[t, i] for t, i in zip(vs, ids)], merges=[], drop=0, unk=[], cont=[], eow=[], fuse=False, bf=False, ign=True)]
        if g.b(.15): model = [dict(k='WordPiece', vocab=model[0]['vocab'], unk=U('x'), cont=U('##'), maxc=5)]
        if g.b(.1): model = []
        def toks(n):
            return [tok(list(r.choice(conts)), sw=g.b(.15), ls=g.b(.15), rs=g.b(.15), nz=g.b(.4), sp=g.b(.4), id=r.choice([0, 3, 9, 2000])) for _ in range(n)]
        c = cfg(added=toks(r.choice([0, 1, 2, 4])), model=model, norm=[] if g.b(.6) else [r.choice([dict(k='NFD'), dict(k='Bert', clean=False, cjk=False, strip=1, lower=True)])],
                dec=[] if g.b(.7) else [dict(k='Fuse')])
        ev = [new(c)]
        top = max(ids) + 12
        for _ in range(r.choice([2, 4, 7])):
            ev.append(add(toks(r.choice([0, 1, 1, 2, 3])), via=g.b(.4)))
            t = sum([r.choice(conts) + r.choice([[], [32]]) for _ in range(4)], [])
            ev.append(enc(t, g.b()))
            ev.append(dec([r.randrange(0, top) for _ in range(3)] + r.sample(ids, min(2, len(ids))), g.b()))
        all_ids = sorted(set(range(min(top, 40))) | set(range(max(0, max(ids) - 2), top)))
        for s in (True, False): ev.append(dec(all_ids, s))
        return ev
    return reps(one, scale(tier, 800))

# ---- normalizers
def norm_groups(g, ns, n, names, per=6):
    gs = []
    for _ in range(n):
        gs.append([norm_ev(g.r.choice(ns) if isinstance(ns, list) else ns(), g.text(names=names if g.b(.8) else None)) for _ in range(per)])
    return gs
FORMS = [dict(k='NFC'), dict(k='NFD'), dict(k='NFKC'), dict(k='NFKD')]
def plan_C06(g, tier, rnd):
    r = g.r
    gs = []
    if rnd == 0:
        ctx = [([], []), (U('a'), [0x301])]
        if tier != 'quick': ctx += [([0x1100], [0x11A8]), ([0x41, 0x327], [0x30A]), ([0x9C7], [0x9BE]), ([], [0x338, 0x323])]
        for n in FORMS:
            for p, s in ctx: gs += sweeps('norm', n, p, s, full_ranges())
        u = unicode_tables()
        # every canonical pair, composed or excluded, with something before, between and after
        pairs = [(a, b) for a, l in zip(u['compk'], u['compv']) for b, _ in l] + [tuple(d) for d in u['canonv'] if len(d) == 2]
        pairs = sorted(set(pairs)); r.shuffle(pairs)
        evs = []
        for a, b in pairs:
            mid = r.choice(MARKS + [0x41, 0x1161])
            for t in ([a, b], [a, mid, b], [a, b, r.choice(MARKS + JAMO)]):
                evs.append(norm_ev(r.choice(FORMS), t))
        gs += [evs[i:i + 40] for i in range(0, len(evs), 40)]
        L, V, T = [0x1100, 0x1112, 0x1113], [0x1161, 0x1175, 0x1176], [0x11A7, 0x11A8, 0x11C2, 0x11C3]
        evs = [norm_ev(f, list(t)) for f in FORMS for t in itertools.product(L + [0xAC00, 0xAC01], V + [0x11A8], T + [0x300])]
        gs += [evs[i:i + 40] for i in range(0, len(evs), 40)]
    marks = [c for c, v in zip(unicode_tables()['cccs'], unicode_tables()['cccv']) if v > 0]
    def one():
        out = []
        for _ in range(6):
            x = r.random()
            if x < .4: t = [g.char(['letters', 'acc', 'jamo', 'compat', 'cased']) if g.b(.4) else r.choice(marks + MARKS) for _ in range(r.choice([2, 3, 5, 9, 20, 45]))]
            elif x < .5: t = [r.choice(U('aeA')) for _ in range(r.choice([100, 300]))] + [r.choice(marks) for _ in range(3)] + g.text()
            elif x < .6: t = [0x61] + [r.choice(marks) for _ in range(40)]
            else: t = g.text(names=['letters', 'acc', 'marks', 'spmarks', 'jamo', 'compat', 'cased', 'cjk', 'spaces'])
            out.append(norm_ev(r.choice(FORMS), t))
        return out
    gs += reps(one, scale(tier, 250))
    return gs

def all_bert():
    return [dict(k='Bert', clean=a, cjk=b, strip=c, lower=d) for a in (True, False) for b in (True, False) for c in (0, 1, 2) for d in (True, False)]
def plan_C07(g, tier, rnd):
    gs = []
    if rnd == 0:
        for n in all_bert():
            for p, s in ([([], [])] if tier == 'quick' else [([], []), (U('a'), U('b')), ([0x4E2D], [0x301])]):
                gs += sweeps('norm', n, p, s, full_ranges() if tier != 'quick' or (n['clean'], n['cjk'], n['strip'], n['lower']) in
                             ((True, True, 2, True), (True, False, 0, False), (False, True, 0, False), (False, False, 1, False), (False, False, 0, True)) else near_ranges(g.r))
        for loc in (('tr_TR.UTF-8', 'C.UTF-8') if tier != 'quick' else ('C.UTF-8',)):
            grp = sweeps('norm', dict(k='Bert', clean=True, cjk=True, strip=2, lower=True), U('I'), [0x130], near_ranges(g.r))
            for x in grp: x[0]['_locale'] = loc
            gs += grp
    gs += norm_groups(g, all_bert(), scale(tier, 450), ['letters', 'acc', 'marks', 'spmarks', 'ctrl', 'spaces', 'cjk', 'cased', 'wide', 'jamo', 'compat'])
    return gs

def plan_C08(g, tier, rnd):
    r = g.r
    gs = []
    if rnd == 0:
        for n in (dict(k='StripAccents'), dict(k='Strip', left=True, right=False), dict(k='Strip', left=False, right=True), dict(k='Strip', left=True, right=True)):
            for p, s in (([], []), (U('a'), U('b')), ([32], [0x3000]), (U('a'), [])):
                gs += sweeps('norm', n, p, s, full_ranges())
        # every pattern of up to 3 and text of up to 6 characters over two letters
        pats = [list(t) for n in range(4) for t in itertools.product(U('ab'), repeat=n)]
        texts = [list(t) for n in range(7) for t in itertools.product(U('ab'), repeat=n)]
        for p in pats:
            for c in ([], U('a'), U('ba'), p + p, U('xyz')):
                if tier == 'quick' and g.b(.5): continue
                gs.append([norm_ev(dict(k='Replace', p=p, c=c), t) for t in texts])
        gs += [[norm_ev(dict(k='Prepend', s=s), t) for s in ([], U('x'), U(' '), [0x2581], U('longer')) for t in ([], U('a'), [32], [0x301], U('xa'))]]
    kinds = ['Prepend', 'Replace', 'Replace', 'Strip', 'StripAccents', 'Seq', 'Seq']
    for _ in range(scale(tier, 500)):
        out = []
        for _ in range(6):
            n = g.norm_of(r.choice(kinds))
            t = g.text(names=r.choice([['letters', 'spaces'], ['letters', 'acc', 'marks', 'spmarks'], ['spaces'], None]))
            if n['k'] == 'Replace' and n['p'] and g.b(.7):     # text that has the pattern
                q = n['p']
                t = sum([r.choice([q, q, q[:1], q[-1:], U('a'), [32]]) for _ in range(r.randint(0, 6))], [])
            out.append(norm_ev(n, t))
        gs.append(out)
    return gs

# ---- pre-tokenizers
def splits_of(g, n):
    """a tiling of [0, n) some parts of which are claimed, possibly with gaps"""
    cuts = sorted({0, n} | {g.r.randint(0, n) for _ in range(g.r.choice([0, 0, 1, 2, 4]))})
    out = [[a, b, g.b(.25)] for a, b in zip(cuts, cuts[1:])]
    if g.b(.2): out = [s for s in out if g.b(.8)]
    return out
def pre_event(g, p=None, t=None, gaps=True):
    t = g.text() if t is None else t
    p = p or g.pre()
    s = splits_of(g, len(t)) if g.b(.5) else [[0, len(t), False]]
    return pre_ev(p, t, s, moved(g, len(t)) if g.b(.3) else None)
CATS = ['L', 'Lu', 'Ll', 'Lt', 'Lm', 'Lo', 'M', 'Mn', 'Mc', 'Me', 'N', 'Nd', 'Nl', 'No', 'P', 'S', 'Sc', 'Z', 'Zs']
BEHS = ['Removed', 'Isolated', 'MergedWithPrevious', 'MergedWithNext', 'Contiguous']
def plan_C09(g, tier, rnd):
    r = g.r
    gs = []
    if rnd == 0:
        rs = near_ranges(g.r) if tier == 'quick' else full_ranges()
        for p, s in (([], []), (U('a'), U('b')), (U('.'), [32])):
            gs += sweeps('pre', dict(k='Bert'), p, s, rs)
        for cat in (['s', 'd', 'L', 'P'] if tier == 'quick' else ['s', 'S', 'd'] + CATS):
            re = dict(k='cls', neg=False, items=[dict(t=cat) if cat in 'sSd' else dict(t='g', g=cat)])
            gs += sweeps('cut', dict(k='Split', re=re, beh='Isolated', inv=False), U('x'), U('y'), near_ranges(g.r))
        # every text of up to 6 characters over {a, b, -} against delimiters that match runs, single and empty matches
        A = dict(k='lit', s=U('-'), ci=False)
        res = [A, dict(k='rep', e=A, min=1, max=-1, mode='greedy'), dict(k='lit', s=U('--'), ci=False), dict(k='rep', e=A, min=0, max=-1, mode='greedy'),
               dict(k='alt', l=[dict(k='lit', s=U('a-'), ci=False), A]), dict(k='la', e=A), dict(k='seq', l=[dict(k='lit', s=U('a'), ci=False), dict(k='rep', e=A, min=0, max=1, mode='lazy')]),
               dict(k='empty')]
        texts = [list(t) for n in range(6 if tier == 'quick' else 8) for t in itertools.product(U('a-'), repeat=n)]
        for re in res:
            for beh in BEHS:
                for inv in (False, True):
                    gs.append([pre_ev(dict(k='Split', re=re, beh=beh, inv=inv), t) for t in texts])
    for _ in range(scale(tier, 450)):
        gs.append([pre_event(g, p=g.pre(kinds=['Bert', 'Split', 'Split', 'Split', 'Seq'])) for _ in range(6)])
    return gs

def plan_C10(g, tier, rnd):
    r = g.r
    gs = []
    if rnd == 0:
        rs = near_ranges(g.r)
        BLf = lambda p, x: dict(k='ByteLevel', prefix=p, regex=x)
        gs += sweeps('pre', BLf(False, False), [], [], near_ranges(g.r, inside=24) if tier == 'quick' else full_ranges())
        gs += sweeps('pre', BLf(True, False), [], U('a'), rs)
        for p, s in ([([], []), (U('a'), U('1')), ([32], U('!')), (U("'"), U('l')), (U('a '), [32, 0x3000])] if tier == 'quick' else
                     [(a, b) for a in ([], U('a'), U('1'), [32], U("'"), U('!'), U(' '), [10]) for b in ([], U('a'), U('1'), [32], U('!'), [0x2003, 97])]):
            gs += sweeps('cut', BLf(False, True), p, s, rs)
        # the decoder on every byte character, whole and split
        gs.append([dict(op='chain', cfg=dict(k='ByteLevel'), toks=[B(chr(c)) for c in range(a, b)]) for a, b in ((1, 128), (128, 256), (256, 340), (340, 400), (0x2000, 0x2100), (0x1F600, 0x1F640))])
        gs.append([dict(op='chain', cfg=dict(k='ByteLevel'), toks=[B(''.join(chr(c) for c in range(a, b)))]) for a, b in ((1, 128), (128, 256), (256, 340))])
        pieces = ["'s", "'t", "'re", "'ve", "'m", "'ll", "'d", "'S", "'LL", ' ', '  ', '   ', '\n', '\t ', 'a', 'ab', '1', '23', '!', '?!', "'", "''", 'é', '中', '😀', '́', '²', '_', '\u00a0', '\u3000']
        texts = [U(a + b) for a in pieces for b in pieces]
        if tier != 'quick': texts += [U(a + b + c) for a in pieces for b in pieces for c in pieces]
        for i in range(0, len(texts), 60): gs.append([pre_ev(BLf(g.b(), True), t) for t in texts[i:i + 60]])
    al = [BL[b] for b in range(256)]
    for _ in range(scale(tier, 350)):
        ev = [pre_event(g, p=g.pre(kinds=['ByteLevel']), t=g.text(names=r.choice([None, ['letters', 'digits', 'punct', 'spaces'], ['wide', 'cjk', 'acc', 'marks', 'letters']]))) for _ in range(4)]
        # decoding in any grouping
        for _ in range(3):
            s = bytelevel(g.text()) if g.b(.6) else [r.choice(al + [0x4E2D, 0x1F600, 0x2581, 32, 0xAD, 0x7F, 0x144]) for _ in range(r.randint(0, 12))]
            cuts = sorted({0, len(s)} | {r.randint(0, len(s)) for _ in range(r.choice([0, 1, 3]))})
            ev.append(dict(op='chain', cfg=dict(k='ByteLevel'), toks=[B(S(s[a:b])) for a, b in zip(cuts, cuts[1:])]))
        gs.append(ev)
    def trip():
        texts = [g.text() for _ in range(2)]
        c = cfg(pre=[dict(k='ByteLevel', prefix=g.b(), regex=g.b())], dec=[dict(k='ByteLevel')],
                model=[dict(k='BPE', vocab=[[[BL[b]], b] for b in range(256)], merges=[], drop=0, unk=[], cont=[], eow=[], fuse=False, bf=False, ign=False)])
        ev = [new(c)]
        for t in texts:
            ev.append(enc(t, False)); ev.append(dec(list((S([32] if c['pre'][0]['prefix'] and t and not chr(t[0]).isspace() else []) + S(t)).encode('utf-8')), False))
        return ev
    gs += reps(trip, scale(tier, 80))
    return gs

# ---- models
def small_texts(al, n):
    return [list(t) for k in range(n + 1) for t in itertools.product(al, repeat=k)]
def plan_C11(g, tier, rnd):
    r = g.r
    gs = []
    if rnd == 0:
        # vocabularies over the pieces of two letters, all words up to 5
        words = small_texts(U('ab'), 4 if tier == 'quick' else 6)
        ps = [list(t) for n in (1, 2, 3) for t in itertools.product(U('ab'), repeat=n)]
        for _ in range(60 if tier == 'quick' else 400):
            toks = [U('?')] + [p for p in ps if g.b(.45)] + [U('##') + p for p in ps if g.b(.45)]
            gs.append([dict(op='model', cfg=dict(k='WordPiece', vocab=[[t, i] for i, t in enumerate(toks)], unk=U('?'), cont=U('##'), maxc=r.choice([100, 4, 3])), words=words, _together=g.b())])
    def one():
        al = r.choice([U('ab'), U('abc'), [0x4E2D, 0x1F600, 97], U('aé') + [0x301], LETTERS])
        words = [[r.choice(al) for _ in range(r.choice([1, 2, 3, 5, 8, 12]))] for _ in range(8)]
        m = g.wordpiece(words)
        m['maxc'] = r.choice([m['maxc'], len(words[0]), len(words[0]) - 1, len(words[1])])
        ws = words + [w[:-1] for w in words] + [w + [r.choice(al)] for w in words[:3]] + [w[1:] for w in words[:3]]
        own = [m['unk'], m['cont'], m['cont'] + m['unk']]
        for w in words[:3]:
            i = r.randint(0, len(w)); ws.append(w[:i] + r.choice(own) + w[i:]); ws.append(r.choice(own) + w)
        return [dict(op='model', cfg=m, words=[w for w in ws if w], _together=g.b())]
    gs += reps(one, scale(tier, 500))
    def whole():
        texts = [sentence(g) for _ in range(2)]
        return session(g, bert_like(g, texts), texts, decs=0)
    gs += reps(whole, scale(tier, 60))
    return gs

def merges_over(g, al, n):
    """a merge list over the strings of the alphabet, dense in competing merges"""
    r = g.r
    toks = [[c] for c in al]
    merges = []
    for _ in range(n):
        a, b = r.choice(toks), r.choice(toks)
        if len(a) + len(b) > 5: continue
        merges.append(a + [32] + b)
        if g.b(.93): toks.append(a + b)
    if g.b(.5): r.shuffle(merges)
    if g.b(.2): merges = merges + r.sample(merges, len(merges) // 2)
    if g.b(.2): merges.insert(0, U('zz yy'))
    return [list(t) for t in dict.fromkeys(map(tuple, toks))], merges
def plan_C12(g, tier, rnd):
    r = g.r
    gs = []
    if rnd == 0:
        words = [w for w in small_texts(U('ab'), 6 if tier == 'quick' else 8) if w]
        for _ in range(25 if tier == 'quick' else 150):
            toks, merges = merges_over(g, U('ab'), r.choice([2, 3, 5, 8]))
            m = dict(k='BPE', vocab=[[t, i] for i, t in enumerate(toks)], merges=merges, drop=0, unk=[], cont=[], eow=[], fuse=False, bf=False, ign=g.b(.15))
            gs.append([dict(op='model', cfg=m, words=words, _together=g.b())])
        # a prefix as long as a byte token: merges that swallow their right side, and so meet the same new token twice
        P = U('######')
        toks = [U('a'), P + U('b'), U('ab'), U('<0x23>'), U('<0xC3>'), U('<0xA9>')]
        base = [P + U('b <0x23>'), U('a ') + P + U('b'), U('<0xC3> <0xA9>'), U('ab <0xC3>')]
        for merges in itertools.permutations(base):
            gs.append([dict(op='model', cfg=dict(k='BPE', vocab=[[t, i] for i, t in enumerate(toks)], merges=list(merges), unk=[], cont=P, eow=[], fuse=False, bf=True, ign=False, drop=0), words=[U('abé'), U('abéé'), U('aéb'), U('abéabé')])])
    def dense():
        al = r.choice([U('ab'), U('abc'), U('abcd'), [0x4E2D, 0x1F600, 97]])
        toks, merges = merges_over(g, al, r.choice([4, 8, 14]))
        words = [[r.choice(al) for _ in range(r.choice([2, 4, 7, 11, 16, 25]))] for _ in range(6)]
        ids = r.sample(range(60 + len(toks)), len(toks))
        m = dict(k='BPE', vocab=[[t, i] for t, i in zip(toks, ids)], merges=merges, drop=0, unk=r.choice([[], toks[0]]), cont=[], eow=[], fuse=g.b(), bf=False, ign=g.b(.1))
        ws = words + r.sample(words, 3) + [[r.choice(al + U('z')) for _ in range(6)] for _ in range(3)]
        return [dict(op='model', cfg=m, words=ws, _together=g.b())]
    gs += reps(dense, scale(tier, 350))
    def one():
        words = [g.text(r.choice([1, 2, 3, 5, 8, 13]), names=r.choice([['letters'], ['letters', 'acc', 'cjk', 'wide'], ['letters', 'punct']])) for _ in range(6)]
        m = g.bpe(words)
        ws = words + [w[:-1] for w in words] + [w + [r.choice(LETTERS + [0xE9, 0x1F600])] for w in words[:3]] + r.sample(words, 2)
        return [dict(op='model', cfg=m, words=[w for w in ws if w], _together=g.b())]
    gs += reps(one, scale(tier, 350))
    def affixed():
        # prefixes and suffixes of every length, byte tokens that take part in merges, several merges making one token
        al = r.choice([U('ab'), U('abé'), [97, 0xE9, 0x4E2D]])
        P, E = r.choice([[], U('#'), U('##'), U('######'), U('a'), U('<0x')]), r.choice([[], [], U('</w>'), U('a'), U('#')])
        bf = g.b(.7)
        byts = [U('<0x%02X>' % b) for c in al[1:] for b in chr(c).encode('utf-8')] + [U('<0x23>')] if bf else []
        toks = [x for c in al for x in ([c], P + [c], [c] + E, P + [c] + E) if g.b(.6)] + byts
        if not toks: toks = [[97]]
        merges = []
        for _ in range(r.choice([3, 6, 12, 20])):
            a, b = r.choice(toks), r.choice(toks)
            n = a + b[len(P):]
            if len(b) < len(P) or len(n) > 24 or not n: continue
            merges.append(a + [32] + b); toks.append(n)
        if g.b(.6): r.shuffle(merges)
        toks = [list(t) for t in dict.fromkeys(map(tuple, toks))]
        ids = r.sample(range(20 + len(toks)), len(toks))
        m = dict(k='BPE', vocab=[[t, i] for t, i in zip(toks, ids)], merges=merges, drop=0, unk=r.choice([[], [], toks[0]]), cont=P, eow=E, fuse=g.b(), bf=bf, ign=g.b(.15))
        words = [[r.choice(al) for _ in range(r.choice([1, 2, 3, 4, 6, 9]))] for _ in range(10)]
        return [dict(op='model', cfg=m, words=words + r.sample(words, 2), _together=g.b())]
    gs += reps(affixed, scale(tier, 350))
    def drop():
        words = [[r.choice(U('ab')) for _ in range(r.choice([2, 3, 4]))] for _ in range(4)]
        toks, merges = merges_over(g, U('ab'), 5)
        m = dict(k='BPE', vocab=[[t, i] for i, t in enumerate(toks)], merges=merges, drop=r.choice([1, 2]), unk=[], cont=[], eow=[], fuse=False, bf=False, ign=False)
        return [dict(op='model', cfg=m, words=words)]
    gs += reps(drop, scale(tier, 40))
    def whole():
        texts = [sentence(g) for _ in range(2)]
        return session(g, r.choice([gpt2_like, llama_like])(g, texts), texts, decs=0)
    gs += reps(whole, scale(tier, 40))
    return gs

# ---- truncation, post-processing, padding
def plan_C13(g, tier, rnd):
    r = g.r
    gs = []
    if rnd == 0:
        N = 9 if tier == 'quick' else 16
        for d in ('Left', 'Right'):
            for st in ('LongestFirst', 'OnlyFirst', 'OnlySecond'):
                for n in range(N + 1):
                    e = encoding([[97 + i] for i in range(n)])
                    gs.append([dict(op='trunc', cfg=dict(dir=d, strat=st, max=m, stride=s), e=e) for m in range(0 if st != 'OnlySecond' else 1, n + 2) for s in range(0, m + 2)])
    def one():
        texts = [g.text(g.r.choice([0, 1, 3, 6, 9, 14, 30]), names=['letters', 'spaces', 'punct']) for _ in range(4)]
        c = g.config(texts)
        c['trunc'] = [dict(dir=r.choice(['Left', 'Right']), strat=r.choice(['LongestFirst', 'OnlyFirst', 'OnlyFirst']), max=(m := r.choice([0, 1, 2, 3, 4, 5, 6, 7, 10])), stride=r.choice([0, 0, 1, 2, max(0, m - 1), max(0, m - 2), m]))]
        c['post'] = [] if g.b(.3) else [g.post()]
        c['pad'] = [] if g.b(.7) else [g.pad()]
        return [new(c)] + [enc(t, s) for t in texts for s in (True, False)]
    gs += reps(one, scale(tier, 600))
    return gs

def rand_encoding(g, depth=0, n=None, space=True):
    r = g.r
    n = r.choice([0, 1, 2, 3, 5, 8]) if n is None else n
    G = 288
    toks, offs, at = [], [], 0
    for i in range(n):
        t = [G] * r.choice([0, 0, 1, 1, 2, 3]) + [r.choice(LETTERS) for _ in range(r.choice([0, 1, 2, 3]))] + [G] * r.choice([0, 0, 0, 1, 2]) if space else U('t%d' % i)
        w = r.choice([len(t), len(t), len(t), 1, 2, 0, len(t) + 1]); toks.append(t); offs.append([at, at + w]); at += w
        if g.b(.1): offs[-1] = [0, w]
    return encoding(toks, ids=[r.randrange(500) for _ in range(n)], offs=offs, words=[r.choice([-1, i]) for i in range(n)], types=[r.randrange(3) for _ in range(n)],
                    spec=[r.choice([0, 0, 1]) for _ in range(n)], att=[r.choice([1, 1, 0]) for _ in range(n)],
                    over=[rand_encoding(g, depth + 1, space=space) for _ in range(r.choice([0, 0, 1, 2, 3]))] if depth == 0 else ())
def plan_C14(g, tier, rnd):
    r = g.r
    gs = []
    for _ in range(scale(tier, 500)):
        gs.append([dict(op='post', cfg=g.post(), e=rand_encoding(g), special=g.b(.7)) for _ in range(5)])
    if rnd == 0:
        for p in (True, False):
            toks = [t for n in range(5) for t in itertools.product([288, 97], repeat=n)]
            es = []
            for t in toks:
                for a in (0, 3):
                    for w in range(len(t) + 2): es.append(dict(op='post', cfg=dict(k='ByteLevel', prefix=p, trim=True), e=encoding([U('q'), list(t), list(t)], offs=[[0, 1], [a, a + w], [a + w, a + w + len(t)]]), special=True))
            gs += [es[i:i + 40] for i in range(0, len(es), 40)]
    def one():
        texts = [g.text(g.r.choice([0, 1, 3, 6, 12])) for _ in range(3)]
        c = g.config(texts); c['post'] = [g.post()]
        if g.b(.5): c['trunc'] = [g.trunc()]
        if g.b(.4): c['pre'] = [dict(k='ByteLevel', prefix=g.b(), regex=g.b())]
        return [new(c)] + [enc(t, s) for t in texts for s in (True, False)]
    gs += reps(one, scale(tier, 300))
    return gs

def plan_C15(g, tier, rnd):
    r = g.r
    gs = []
    if rnd == 0:
        for d in ('Left', 'Right'):
            for n in range(0, 8):
                e = encoding([[97 + i] for i in range(n)], over=[encoding([[65 + i] for i in range(k)]) for k in range(0, n + 1, 2)])
                gs.append([dict(op='pad', cfg=dict(dir=d, fixed=f, id=9, type=3, tok=U('[PAD]'), mult=m), e=e) for f in [[]] + [[k] for k in range(11)] for m in (0, 1, 2, 3, 4, 7, 8)])
    for _ in range(scale(tier, 400)):
        gs.append([dict(op='pad', cfg=dict(g.pad(), fixed=r.choice([[], [r.randint(0, 14)]]), tok=r.choice([U('[PAD]'), U('é'), [0x1F600], []])), e=rand_encoding(g, space=False)) for _ in range(5)])
    def one():
        texts = [g.text(g.r.choice([0, 1, 3, 6, 12])) for _ in range(3)]
        c = g.config(texts); c['pad'] = [g.pad()]
        if g.b(.5): c['trunc'] = [g.trunc()]
        return [new(c)] + [enc(t, s) for t in texts for s in (True, False)]
    gs += reps(one, scale(tier, 300))
    return gs

# ---- decoding
def dec_tokens(g, n=None):
    r = g.r
    bank = [B(x) for x in ('a', 'ab', '##b', '##', '#', ' ', '  ', ' a', 'a ', '▁a', '▁', '▁▁a▁', '.', ',', '?', '!', "'", "n't", "'m", "'s", "'ve", "'re", 'do', 'not', 'do not', ' do not', "ca",
                             'é', '中', '😀', 'Ġa', 'ĠĠ', 'Ċ', 'aaa', 'aba', '<0x41>', '<0x61>', '<0xE4>', '<0xB8>', '<0xAD>', '<0xF0>', '<0x9F>', '<0x98>', '<0x80>', '<0xC3>', '<0xA9>', '<0xc3>', '<0xff>', '<0x00>', '<0x0>', '<0xG0>',
                             '<0x123>', '0x41', '<0x41', '<0xED>', '<0xA0>', '<0xC0>', '', ' ?', ' .', ' n\'t', "x '", '<s>')]
    return [r.choice(bank) if g.b(.9) else list(S(g.text(3)).encode('utf-8')) for _ in range(r.choice([0, 1, 2, 3, 5, 8]) if n is None else n)]
def plan_C16(g, tier, rnd):
    r = g.r
    gs = []
    if rnd == 0:
        hexes = [0x41, 0xC3, 0xA9, 0xE4, 0xB8, 0xAD, 0xF0, 0x9F, 0x80, 0xED, 0xA0, 0xFF]
        seqs = [list(t) for n in (1, 2, 3) for t in itertools.product(hexes, repeat=n)]
        if tier == 'quick': seqs = [s for s in seqs if len(s) < 3 or g.b(.25)]
        evs = [dict(op='chain', cfg=dict(k='ByteFallback'), toks=[B('<0x%02X>' % b) for b in s] + ([B('x')] if g.b(.3) else [])) for s in seqs]
        gs += [evs[i:i + 60] for i in range(0, len(evs), 60)]
        evs = [dict(op='chain', cfg=dict(k='Strip', c=B(c), start=a, stop=b), toks=[list(t) for n in range(5) for t in itertools.product(B('x '), repeat=n)])
               for c in (' ', 'x', 'é') for a in range(4) for b in range(4)]
        gs += [evs[i:i + 12] for i in range(0, len(evs), 12)]
    for _ in range(scale(tier, 500)):
        out = []
        for _ in range(6):
            d = g.dec(bl=False) if g.b(.8) else dict(k='Seq', l=[g.dec(bl=False) for _ in range(r.choice([0, 1, 2]))] + [dict(k='ByteLevel')])
            toks = dec_tokens(g)
            if json.dumps(d).find('ByteLevel') >= 0: toks = [t for t in toks if all(b < 0x80 for b in t) or True]
            out.append(dict(op='chain', cfg=d, toks=toks))
        gs.append(out)
    def one():
        toks = [list(t) for t in dict.fromkeys(tuple(t) for t in dec_tokens(g, 14) if t)]
        vocab = [[U(BS(t)), i] for t, i in zip(toks, r.sample(range(2 * len(toks)), len(toks)))]
        model = [dict(k='WordPiece', vocab=vocab, unk=U('?'), cont=U('##'), maxc=10)] if g.b(.9) else []
        c = cfg(model=model, added=[tok(r.choice(toks and [U(BS(t)) for t in toks] + [U('[X]')]), sp=g.b(), nz=g.b()) for _ in range(r.choice([0, 1, 3]))], dec=[] if g.b(.25) else [g.dec()])
        ids = [i for _, i in vocab] + [99999, -1, 2 * len(toks), 2 * len(toks) + 1, 2 * len(toks) + 2]
        ev = [new(c)]
        for _ in range(4): ev.append(dec([r.choice(ids) for _ in range(r.choice([0, 1, 2, 5, 9]))], g.b()))
        ev.append(add([tok(r.choice([U('[Y]'), U('a'), U(' ')]), sp=g.b())], via=g.b()))
        for _ in range(3): ev.append(dec([r.choice(ids) for _ in range(r.choice([1, 3, 6]))], g.b()))
        return ev
    gs += reps(one, scale(tier, 400))
    gs += reps(lambda: real_session(g), 20)
    return gs

# ---- configurations
def shuffled(g, x):
    """the same JSON value with its object keys in another order"""
    if isinstance(x, dict):
        ks = list(x); g.r.shuffle(ks)
        return {k: shuffled(g, x[k]) for k in ks}
    if isinstance(x, list): return [shuffled(g, v) for v in x]
    return x
def jstring(g, s, p):
    out = ['"']
    for c in s:
        o = ord(c)
        if g.b(p) or o < 0x20 or 0xD800 <= o < 0xE000:
            short = {'"': '\\"', '\\': '\\\\', '/': '\\/', '\b': '\\b', '\f': '\\f', '\n': '\\n', '\r': '\\r', '\t': '\\t'}
            if c in short and g.b(.5): out.append(short[c])
            elif o >= 0x10000:
                o -= 0x10000; out.append(g.r.choice(['\\u%04x\\u%04x', '\\u%04X\\u%04X']) % (0xD800 + (o >> 10), 0xDC00 + (o & 0x3FF)))
            else: out.append(g.r.choice(['\\u%04x', '\\u%04X']) % o)
        elif c in '"\\': out.append('\\' + c)
        else: out.append(c)
    return ''.join(out) + '"'
def jrender(g, x, p, ws, esc=False):
    """esc: this object's keys may be written with escapes (a vocabulary's; field names are plain in every tokenizer.json)"""
    w = lambda: ''.join(g.r.choice(' \n\t\r') for _ in range(g.r.choice([0, 0, 1, 2]))) if ws else ''
    if isinstance(x, dict):
        return '{' + w() + (w() + ',' + w()).join(jstring(g, k, p if esc else 0) + w() + ':' + w() + jrender(g, v, p, ws, k in ('vocab', 'special_tokens')) for k, v in x.items()) + w() + '}'
    if isinstance(x, list): return '[' + w() + (w() + ',' + w()).join(jrender(g, v, p, ws) for v in x) + w() + ']'
    if isinstance(x, str): return jstring(g, x, p)
    return json.dumps(x)
def rendering(g, doc):
    """one of the many ways to write the document, and to hand it over"""
    r = g.r
    d = shuffled(g, doc) if g.b(.7) else doc
    if d.get('added_tokens') and g.b(.5):     # flags left out have their defaults
        p = r.choice([.3, .7, 1])
        d = dict(d, added_tokens=[{k: v for k, v in t.items() if not (isinstance(v, bool) and v == (k == 'normalized') and g.b(p))} for t in d['added_tokens']])
    text = jrender(g, d, r.choice([0, 0, .1, .5, 1]), g.b(.6))
    c = dict(op='new', json=text)
    x = r.random()
    if x < .2: c['dir'] = True
    elif x < .3: c['dir'] = True; c['both'] = True
    return c

WRONG = dict(str=[5, True, [], {}, 1.5], int=['x', True, [], {}, 1.5], bool=['true', 1, [], {}], obj=['x', 7, [], True], arr=['x', 7, {}, True], null=[])
def wrong_kinds(x):
    if x is None: return []
    if isinstance(x, bool): return WRONG['bool']
    if isinstance(x, str): return WRONG['str']
    if isinstance(x, int): return WRONG['int']
    if isinstance(x, float): return ['x', True, [], {}]
    if isinstance(x, dict): return WRONG['obj']
    return WRONG['arr']
SECTIONS = ['truncation', 'padding', 'added_tokens', 'normalizer', 'pre_tokenizer', 'post_processor', 'decoder', 'model']
# fields the configuration format has but the tokenizer has no use for
UNUSED = {('decoder', 'add_prefix_space'), ('decoder', 'trim_offsets'), ('decoder', 'use_regex'), ('pre_tokenizer', 'trim_offsets'), ('post_processor', 'use_regex')}
def field_paths(doc):
    """paths of every value a tokenizer of this kind uses"""
    out = []
    def walk(x, path):
        if path: out.append(path)
        if isinstance(x, dict):
            for k, v in x.items():
                if path and (path[0], k) in UNUSED: continue
                if path == () and k not in SECTIONS: continue
                if k == 'pair': continue
                walk(v, path + (k,))
        elif isinstance(x, list):
            for i, v in enumerate(x):
                if i < 3: walk(v, path + (i,))
    walk(doc, ())
    return out
def at(doc, path):
    for k in path: doc = doc[k]
    return doc
def replaced(doc, path, v):
    d = copy.deepcopy(doc); x = at(d, path[:-1]); x[path[-1]] = v
    return d
def without(doc, path):
    d = copy.deepcopy(doc); x = at(d, path[:-1]); del x[path[-1]]
    return d
def source(text, **k):
    """construction from a text (or bytes) the specification reads for itself"""
    b = list(text if isinstance(text, bytes) else text.encode('utf-8', 'surrogatepass'))
    return dict(op='new', src=b, _call=dict(op='new', bytes=b, **k))
OUTSIDE = ['2147483648', '-2147483649', '4294967297', '-4294967295', '9223372036854775807', '9223372036854775808', '18446744073709551617', '1e400']
ODD_NUMBERS = ['-0', '0', '1', '1.0', '1e0', '0.5', '1E-2', '01', '1.', '.5', '+1', '1e', '0x1', '--1', '1_0', 'Infinity', 'NaN', '00', '-', '1.5e+1', '0e7']
ODD_WORDS = ['true', 'false', 'null', 'True', 'nul', 'nullx', 'truefalse', '""', '"x"', '[]', '{}', '[[]]', '{"a":1}', "'x'", '"\\q"', '"\\ud800"', '"\\ud83d\\ude00"', '"\\u12"', '"\n"', '"a" "b"', '1 2', '', ',', '[1,]', '[,1]', '[1 2]', '{"a"}', '{"a":}', '{"a":1,}', '{a:1}', '{"a":1 "b":2}', '{,}', '[}', '{]', '"', '\\', '/*c*/1', '1//c']
MARK = '@@HERE@@'
def textual(g, t):
    """a document with one small change in its text"""
    r = g.r
    i = r.randrange(len(t)); x = r.random()
    if x < .2: return t[:i] + t[i + 1:]
    if x < .35: return t[:i] + r.choice(list('{}[]:,"\\ \t\n01-.eE+tfnu') + ['\u00a0', '\x00', '\x1f', '\x7f', '\u2028', '//', '""', 'true']) + t[i:]
    if x < .45: return t[:i] + r.choice('{}[]:,"\\ 0a') + t[i + 1:]
    if x < .55: return t[:i]
    if x < .65: return t + r.choice(['}', '{}', ']', ',', ' ', '\n', 'x', ' 1', '\x00', '//', '"', 'null'])
    if x < .7: return r.choice(['{', '[', ' ', '\n\t', '\ufeff', 'x', '\u00a0', '//\n']) + t
    b = t.encode('utf-8', 'surrogatepass'); i = r.randrange(len(b))
    if x < .85: return b[:i] + bytes(r.choice([[0x80], [0xC0, 0x80], [0xFF], [0xED, 0xA0, 0x80], [0xF4, 0x90, 0x80, 0x80], [0xE2, 0x82], [0xC3, 0xA9], [0xF0, 0x9F, 0x98, 0x80]])) + b[i:]
    j = t.find('"', i)
    return t[:j + 1] + r.choice(['\\', '\\u', '\\ud800', '\\udc00', '\\ud83d\\u0041', '\\x41', '\\u004', '\\u0061', '\n', '\t', '\\n', '\x01']) + t[j + 1:]
def rename(doc, path, to):
    d = copy.deepcopy(doc); x = at(d, path[:-1]); x[to] = x.pop(path[-1])
    return d
def mutants(g, doc):
    """the document with one change, for every place and many kinds of change"""
    r = g.r
    out = []
    for s in SECTIONS: out.append(dumps(without(doc, (s,))))
    for p in field_paths(doc):
        v = at(doc, p)
        for x in wrong_kinds(v) + [None]: out.append(dumps(replaced(doc, p, x)))
        here = dumps(replaced(doc, p, MARK))
        vocab = 'vocab' in p[:-1]
        if isinstance(v, (int, float)) and not isinstance(v, bool):
            out += [here.replace('"%s"' % MARK, x) for x in r.sample(OUTSIDE, 3) + r.sample(ODD_NUMBERS, 4) + ['-1', '-3']]
        out += [here.replace('"%s"' % MARK, x) for x in r.sample(ODD_WORDS, 2)]
        if isinstance(v, str): out.append(dumps(replaced(doc, p, r.choice(['Up', 'right', 'LEFT', '', 'Middle', 'Only', v + ' ', v[:-1], v.upper(), v + v, 'Fixed', 'BatchLongest', 'NFC', 'Nope']))))
        if isinstance(p[-1], str):
            out.append(dumps(without(doc, p)))
            if g.b(.3): out.append(dumps(rename(doc, p, r.choice([p[-1] + 's', p[-1].upper(), '', ' ' + p[-1]]))))
            if g.b(.2): out.append(dumps(rename(doc, p, MARK)).replace(MARK, ''.join('\\u%04x' % ord(c) for c in p[-1][:1]) + p[-1][1:]))
            if g.b(.2): out.append(dumps(replaced(doc, p[:-1] + (MARK,), v)).replace(MARK, p[-1]))         # twice
        if isinstance(v, dict):
            out.append(dumps(replaced(doc, p + (r.choice(['extra', 'version', 'Type', 'x y', '"']),), r.choice([None, 1, 'x', [], {}, True]))))
            if g.b(.3): out.append(here.replace('"%s"' % MARK, dumps([v])))
    for x in ['tru', '1.0.0', '"\\q"', '[1,,2]', '{"a":1,}', '01', '"\n"', '[', '-', '"a', 'nan', '{"a":[{"b":[1,2,{}]}]}', '"\\ud83d\\ude00"', '1e3', '-12.5E-3', '[true,false,null]', '99999999999999999999', '1e999', '"\x7f"']:
        out.append(dumps(replaced(doc, ('version',), MARK)).replace('"%s"' % MARK, x))
    t = dumps(doc); w = jrender(g, shuffled(g, doc), .2, True)
    out += [textual(g, t) for _ in range(60)] + [textual(g, w) for _ in range(60)]
    return out
REGEX_PARTS = ['a', 'b', '1', ' ', '.', '\\s', '\\S', '\\d', '\\p{L}', '\\p{N}', '\\p{Lu}', '\\n', '\\r', '\\.', '\\x{61}', '\\x61', '\\u0062', '[ab]', '[^a]', '[a-c]', '[^\\s\\p{L}]', '[\\r\\n]',
               '(?:ab)', '(a)', '(?i:ab)', '(?=a)', '(?!b)', '(?!\\S)', '|', '*', '+', '?', '*?', '++', '{2}', '{1,2}', '{1,}', '{2,1}', '(', ')', '[', ']', '{', '}', '^', '$', '\\', '\\p{!}', '\\z', '\\A', '-', '&', "'", "(?i:'s)", '\u00e9', '\U0001f600', '(?<', '(?', '(?#', '\\b', '\\w', '[z-a]', '[]', '[^]', '\\p', '\\x', '#', '/']
def regex_texts(g, n):
    r = g.r
    fixed = ['', '(?:)', 'a**', 'a+*', 'a{2}{3}', 'a{2}+', 'a{0}', 'a|', '|a', '(|)', '()', '(?i:k)', '(?i:K)', '(?i:ss)', '(?i:s)', '[a-]', '[-a]', '[a--b]', '[a&&b]', '[[:alpha:]]', '[a[b]]', '\\', 'a\\', '(a', 'a)', '[a', '*a', '+', '?', '{2}', '(?:a', '(?=a', 'a{', 'a{2', 'a{2,', 'a{,2}', 'a{2 }',
             '\\p{Nope}', '\\p{L', '\\p', '\\pL', '\\P{L}', '\\x{110000}', '\\x{}', '\\x{zz}', '\\u12', '(?<', '(?P<a>b)', '(?<n>a)', '(?<=a)b', '(?<!a)b', '(?>a+)b', '\\1', '(a)\\1', 'a++', 'a*+', 'a?+', 'a+?', 'a??', '^a', 'a$', '(?m)^a', '.', '\\R', '\\X', '[\\d-z]', '[^]', '[]a]', '[a\\]]', '(?=a)*', '\\A*',
             '\\s+(?!\\S)|\\s+', "'s|'t|'re|'ve|'m|'ll|'d| ?\\p{L}+| ?\\p{N}+| ?[^\\s\\p{L}\\p{N}]+|\\s+(?!\\S)|\\s+", "(?i:'s|'t|'re|'ve|'m|'ll|'d)|[^\\r\\n\\p{L}\\p{N}]?\\p{L}+|\\p{N}{1,3}| ?[^\\s\\p{L}\\p{N}]+[\\r\\n]*|\\s*[\\r\\n]+|\\s+(?!\\S)|\\s+", '\\d{1,3}(?=(?:\\d{3})*\\b)', '[0-9]{3}', '(?:)*', 'a{2,2}', 'a{0,0}', 'a{00002}', '[\\p{L}\\p{M}]+', '[\\x{1f600}-\\x{1f64f}]', '\\-', '\\é', '(?i:é)', '(?i:[a])', '(?i:a(?:b|c))', 'a{3}?', 'a{1,2}?', '(?:a|b)*?c', '[ ]', '\\ ']
    return fixed + [''.join(r.choice(REGEX_PARTS) for _ in range(r.choice([1, 2, 3, 4, 5]))) for _ in range(n)]
def plan_C17(g, tier, rnd):
    r = g.r
    gs = []
    quick = tier == 'quick'
    reject = lambda **k: dict(op='new', cfg=0, accept=False, **k)
    def full(g):
        texts = [g.text(6), g.text(9)]
        c = g.config(texts)
        for k, f in dict(trunc=lambda: [g.trunc()], pad=lambda: [g.pad()], norm=lambda: [g.norm()], pre=lambda: [g.pre()], post=lambda: [g.post()], dec=lambda: [g.dec()]).items():
            if not c[k]: c[k] = f()
        if not c['added']: c['added'] = g.added(2)
        if not c['model']: c['model'] = [g.wordpiece([U('ab')])]
        c['model'][0]['vocab'] = c['model'][0]['vocab'][:8]
        if 'merges' in c['model'][0]: c['model'][0]['merges'] = c['model'][0]['merges'][:4]
        return c, texts
    def tried(text, texts, c, **k):
        """construct and, should that be right, use it"""
        ids = [i for m in c['model'] for _, i in m['vocab']][:4] + own_ids(c)[:3]
        return [source(text, **k), enc((g.b(.5) and echo(g, c, texts)) or texts[0], g.b()), dec(ids, g.b())]
    if rnd == 0:
        gs.append([reject(want='invalid_argument', _call=dict(op='new')), reject(want='invalid_argument', _call=dict(op='new', json='')),
                   reject(_call=dict(op='new', path='/nonexistent-verif')), reject(_call=dict(op='new', path='/nonexistent-verif', json='{}'))])
        gs.append([source(t) for t in ('{', '}', '[]', 'x', 'null', '1', '""', '{}', '{"model":', '{"version":"1.0"}', '\x00', '[{}]', ' ', '\n', '\ufeff', 'tru', '[')])
    # regular expressions as texts
    base = vcfg.tokenizer(cfg(pre=[dict(k='Split', re=dict(k='lit', s=U('a'), ci=False), beh='Isolated', inv=False)]))
    for x in (regex_texts(g, 150) if rnd == 0 else regex_texts(g, 0)[:0] + regex_texts(g, 250)[-250:]):
        e = copy.deepcopy(base); p = e['pre_tokenizer']; p['pattern']['Regex'] = x; p['behavior'] = r.choice(['Removed', 'Isolated', 'MergedWithPrevious', 'MergedWithNext', 'Contiguous']); p['invert'] = g.b(.3)
        if g.b(.2): e['pre_tokenizer'] = dict(type='Sequence', pretokenizers=[dict(type='BertPreTokenizer'), p])
        gs.append([source(dumps(e))] + [enc(t, False) for t in (U("ab 1a's SS"), [r.choice(U('aabb1 .\n\'sSc-') + [0xE9, 0x1F600, 0x17F, 0x212A, 0xDF]) for _ in range(9)])])
    # one change to a document
    for _ in range(16 if quick else 12):
        c, texts = full(g)
        ms = mutants(g, vcfg.tokenizer(c))
        for t in r.sample(ms, min(len(ms), 250)) if quick else ms: gs.append(tried(t, texts, c, **(dict(dir=True) if g.b(.1) else {})))
    for _ in range(10):
        t = g.template()
        while not any(x['sp'] for x in t['single']): t = g.template()
        d = vcfg.tokenizer(cfg(post=[t])); sp = d['post_processor']['special_tokens']
        used = next(x['SpecialToken']['id'] for x in d['post_processor']['single'] if 'SpecialToken' in x)
        a = copy.deepcopy(d); del a['post_processor']['special_tokens'][used]
        b = copy.deepcopy(d); b['post_processor']['special_tokens'][used]['ids'].append(4)
        e = copy.deepcopy(d); e['post_processor']['special_tokens'][used]['tokens'].append('q')
        f = copy.deepcopy(d); f['post_processor']['special_tokens']['other'] = f['post_processor']['special_tokens'].pop(used)
        h = copy.deepcopy(d); h['post_processor']['special_tokens'][used]['id'] = 'other'
        i = copy.deepcopy(d); i['post_processor']['pair'] = [r.choice([{}, {'Sequence': dict(id='B', type_id=1)}, {'Sequence': 1}, 7, 'x', {'SpecialToken': dict(id='nope', type_id=0)}, {'Sequence': dict(id='A')}])]
        gs += [[source(dumps(x)), enc(g.text(3))] for x in (a, b, e, f, h, i)]
    # renderings that mean the same
    def one():
        texts = [g.text() for _ in range(2)] if g.b(.7) else [sentence(g) for _ in range(2)]
        c = g.config(texts) if g.b(.8) else r.choice(REAL)(g, texts)
        ev = session(g, c, texts, adds=0)
        x = rendering(g, vcfg.tokenizer(c))
        ev[0] = source(x['json'], **{k: v for k, v in x.items() if k in ('dir', 'both')})
        return ev
    gs += reps(one, scale(tier, 500))
    return gs

# ---- histories
def nudge(g, x):
    """a configuration with one detail changed: what tells it from the other comes late or is small"""
    r = g.r
    x = copy.deepcopy(x)
    spots = []
    def walk(y, path):
        if isinstance(y, dict):
            if 'k' in y and path and path[-1] == 're': spots.append(path); return
            for k, v in y.items():
                if k not in ('k', 'dir', 'strat', 'beh', 'specials', 'single', 'drop', 'fixed'): walk(v, path + (k,))
                elif k in ('dir', 'beh'): spots.append(path + (k,))
        elif isinstance(y, bool): spots.append(path)
        elif isinstance(y, int): spots.append(path)
        elif isinstance(y, list) and path and path[-1] in ('s', 'p', 'c', 'prefix', 'content', 'tok') and all(isinstance(v, int) for v in y): spots.append(path)
        elif isinstance(y, list):
            for i, v in enumerate(y): walk(v, path + (i,))
    walk({k: v for k, v in x.items() if k in ('norm', 'pre', 'post', 'trunc', 'pad', 'dec')}, ())
    for path in r.sample(spots, min(len(spots), r.choice([1, 1, 2]))):
        up = x
        for k in path[:-1]: up = up[k]
        k, v = path[-1], up[path[-1]]
        if k == 're':
            a = g.atom()
            tails = [dict(k='seq', l=[v, a]), dict(k='alt', l=[v, a]), dict(k='seq', l=[v, v]), dict(k='seq', l=[a, v]), dict(k='alt', l=[a, v]), dict(k='rep', e=v, min=1, max=-1, mode=r.choice(['greedy', 'lazy'])), v['l'][0] if v.get('l') else v, v['e'] if isinstance(v.get('e'), dict) else v]
            tails = [t for t in tails if g.simple_reps(t)]
            up[k] = r.choice(tails) if tails else v
        elif k == 'dir': up[k] = 'Left' if v == 'Right' else 'Right'
        elif k == 'beh': up[k] = r.choice(['Removed', 'Isolated', 'MergedWithPrevious', 'MergedWithNext', 'Contiguous'])
        elif isinstance(v, bool): up[k] = not v
        elif k == 'strip': up[k] = r.randrange(3)
        elif isinstance(v, int): up[k] = v + 1
        elif 'dec' in path[:1]: up[k] = v + list(r.choice(['a', ' ', '#']).encode()) if not v or g.b() else v[:0]
        else: up[k] = v + [r.choice(v)] if v and g.b(.6) else v[:-1] if v and k not in ('p', 'tok') else v
    return x
def variant(g, c):
    """another tokenizer that disagrees with this one on the same words"""
    r = g.r
    if g.b(.3): return nudge(g, c)
    d = copy.deepcopy(c)
    m = d['model'][0] if d['model'] else None
    if m:
        x = r.random()
        if x < .3: m['vocab'] = [[t, i + r.choice([1, 1000])] for t, i in m['vocab']] if g.b() else [[t, j] for (t, _), j in zip(m['vocab'], r.sample(range(len(m['vocab']) * 2), len(m['vocab'])))]
        elif x < .6 and m['k'] == 'BPE': r.shuffle(m['merges']); m['merges'] = m['merges'][:r.randint(0, len(m['merges']))]
        elif x < .7 and m['k'] == 'BPE': m['ign'] = not m['ign'] and not m['drop']
        elif x < .8: m['vocab'] = [v for v in m['vocab'] if g.b(.85)] or m['vocab']
        elif m['k'] == 'WordPiece': m['maxc'] = r.choice([2, 4, 100])
    if g.b(.3): d['norm'] = [] if g.b() else [g.norm()]
    if g.b(.3): d['pre'] = [] if g.b() else [g.pre()]
    if g.b(.3): d['added'] = g.added()
    if g.b(.3): d['dec'] = [] if g.b() else [g.dec()]
    return d
def history(g, texts, c, calls, ntok=3):
    r = g.r
    cs = [c] + [variant(g, c) for _ in range(ntok - 1)]
    ev = [new(x) for x in cs]
    for _ in range(calls):
        k = r.randint(1, ntok)
        x = r.random()
        if x < .68: ev.append(enc(r.choice(texts), g.b(), k))
        elif x < .9: ev.append(dec(some_ids(g, cs[k - 1]), g.b(), k))
        else: ev.append(add(g.added(r.choice([1, 2]), contents=[w for t in texts for w in g.words(t) if len(w) < 6][:3]), k, via=g.b()))
    return ev
def dropping(g):
    """texts and a BPE tokenizer with a dropout between 0 and 1"""
    r = g.r
    al = U('abcd')
    toks, merges = merges_over(g, al, 14)
    m = dict(k='BPE', vocab=[[t, i] for i, t in enumerate(toks)], merges=merges, drop=2, unk=[], cont=[], eow=[], fuse=False, bf=False, ign=False)
    words = [[r.choice(al) for _ in range(r.choice([3, 4, 5, 6, 9]))] for _ in range(8)]
    texts = [sum([w + [32] for w in r.sample(words, 3)], [])[:-1] for _ in range(3)] + words[:2]
    return texts, cfg(pre=[dict(k='Bert')] if g.b(.7) else [], model=[m], **(dict(post=[g.post()]) if g.b(.2) else {}))
def plan_C18(g, tier, rnd):
    r = g.r
    gs = []
    def rand():
        texts = [g.text() for _ in range(4)]
        texts += [texts[0] + [32] + texts[1], texts[0][:-1], texts[2] + texts[2]]
        return history(g, texts, g.config(texts[:4]), r.choice([12, 25]))
    def real():
        texts = [sentence(g, 5) for _ in range(3)]
        return history(g, texts + [texts[0] + texts[1]], r.choice(REAL)(g, texts), 15, 2)
    def dense():      # BPE words that share prefixes, suffixes and letters
        al = U('abc')
        toks, merges = merges_over(g, al, 12)
        m = dict(k='BPE', vocab=[[t, i] for i, t in enumerate(toks)], merges=merges, drop=0, unk=[], cont=[], eow=[], fuse=False, bf=False, ign=g.b(.1))
        words = [[r.choice(al) for _ in range(r.choice([3, 4, 5, 6]))] for _ in range(12)]
        texts = [sum([w + [32] for w in r.sample(words, 5)], [])[:-1] for _ in range(6)] + words[:3]
        return history(g, texts, cfg(pre=[dict(k='Bert')] if g.b(.7) else [], model=[m]), 25)
    def twins():      # tokenizers that differ in a detail of one component, asked the same
        texts = [g.text(r.choice([3, 6, 9]), small=True) for _ in range(3)]
        chars = sorted(set(sum(texts, [])) | set(U('ab 1')))
        m = [dict(k='BPE', vocab=[[[x], i] for i, x in enumerate(chars)] + [[[x, y], len(chars) * (j + 1) + i] for j, x in enumerate(chars[:9]) for i, y in enumerate(chars[:9])],
                  merges=[[x, 32, y] for x in chars[:9] for y in chars[:9] if x != 32 and y != 32], drop=0, unk=U('a'), cont=[], eow=[], fuse=g.b(), bf=False, ign=False)]
        k = r.choice(['pre', 'pre', 'norm', 'dec', 'post', 'trunc'])
        def split(): return dict(k='Split', re=g.good_regex(), beh=r.choice(['Isolated', 'Isolated', 'Removed', 'MergedWithNext']), inv=g.b(.3))
        part = dict(pre=lambda: split() if g.b(.8) else g.pre(), norm=g.norm, dec=g.dec, post=g.post, trunc=g.trunc)[k]
        c = cfg(model=m, **{k: [part()]})
        cs = [c] + [nudge(g, c) for _ in range(3)]
        ev = [new(x) for x in cs]
        for _ in range(2):
            for t in texts:
                for i in r.sample(range(1, 5), 4):
                    ev.append(enc(t, g.b(.8), i) if k != 'dec' else dec([r.choice(range(len(chars))) for _ in range(3)], g.b(), i))
        return ev
    def chance():     # 0 < dropout < 1: whatever it chooses, the same call has one result
        return history(g, *dropping(g), r.choice([10, 20]), 2)
    gs += reps(rand, scale(tier, 160)) + reps(real, scale(tier, 25)) + reps(dense, scale(tier, 100)) + reps(twins, scale(tier, 120)) + reps(chance, scale(tier, 40))
    if rnd == 0:
        # many distinct words, then the first ones again
        for v in range(2 if tier == 'quick' else 6):
            al = U('abcdefghijklmnopqrst')
            toks, merges = merges_over(g, U('abcde'), 20)
            toks = [list(t) for t in dict.fromkeys([tuple(t) for t in toks] + [(c,) for c in al])]
            m = dict(k='BPE', vocab=[[t, i] for i, t in enumerate(toks)], merges=merges, drop=0, unk=[], cont=[], eow=[], fuse=False, bf=False, ign=False)
            words = [list(t) for t in itertools.islice(itertools.product(al, repeat=4), v * 7, 14000 * (13 if v else 3), 13 if v else 3)]
            if v == 0: words = words[:11000]
            texts = [sum([w + [32] for w in words[i:i + 250]], []) for i in range(0, len(words), 250)]
            ev = [new(cfg(pre=[dict(k='Bert')], model=[m]))]
            # TLC need not re-encode the filler: only what is asked again is compared
            for i, t in enumerate(texts): ev.append(enc(t, False) if i < 2 or i % 12 == 0 else dict(op='any', _call=dict(op='enc', k=1, text=t, special=False)))
            ev += [enc(texts[0], False), enc(texts[-1], False), enc(texts[1], False), enc(words[5], False)]
            gs.append(ev)
        # words long enough for any length limit
        for n in ((40, 130, 270, 600) if tier == 'quick' else (40, 130, 270, 600, 1100)):
            toks, merges = merges_over(g, U('ab'), 6)
            m = dict(k='BPE', vocab=[[t, i] for i, t in enumerate(toks)], merges=merges, drop=0, unk=[], cont=[], eow=[], fuse=False, bf=False, ign=False)
            w = [r.choice(U('ab')) for _ in range(n)]; w2 = w[:-1] + [195 - w[-1]]; w3 = [195 - w[0]] + w[1:]
            gs.append([new(cfg(model=[m]))] + [enc(x, False) for x in (w, w2, w, w3, w2, w[:n // 2], w)])
    return gs

def plan_C19(g, tier, rnd):
    r = g.r
    gs = []
    def par(texts, cs, reads_only=True):
        ev = [new(c) for c in cs]
        if g.b(.4): ev.append(add(g.added(2), 1))
        nt = r.choice([2, 3, 4])
        ths = []
        for _ in range(nt):
            calls = []
            for _ in range(r.choice([3, 5])):
                k = r.randint(1, len(cs))
                if g.b(.7):
                    t = r.choice(texts)
                    if g.b(.2): t = r.choice([t[:len(t) // 2] + r.choice(texts), echo(g, cs[k - 1], texts) or t, t + [32] + t])
                    calls.append(enc(t, g.b(), k))
                else: calls.append(dec(some_ids(g, cs[k - 1]), g.b(), k))
            ths.append(calls)
        ev.append(dict(op='par', threads=ths, rounds=2))
        return ev
    def one():
        texts = [g.text() for _ in range(4)]
        c = g.config(texts)
        return par(texts, [c] + ([variant(g, c)] if g.b(.3) else []))
    def real():
        texts = [sentence(g, 6) for _ in range(4)]
        return par(texts, [r.choice(REAL)(g, texts)])
    def chance():
        texts, c = dropping(g)
        return par(texts, [c] + ([c] if g.b(.4) else []))
    gs += reps(one, scale(tier, 160)) + reps(real, scale(tier, 60)) + reps(chance, scale(tier, 20))
    return gs

def degenerate(g):
    r = g.r
    x = r.random()
    n = r.choice([1, 2, 5, 40])
    if x < .12: return []
    if x < .24: return [r.choice(SPACES)] * n
    if x < .36: return [r.choice(CTRL) for _ in range(n)]
    if x < .48: return [r.choice(MARKS + SPMARKS) for _ in range(n)]
    if x < .6: return [r.choice(WIDE) for _ in range(n)]
    if x < .7: return [r.choice(LETTERS)] * r.choice([50, 300])
    if x < .8: return g.text(30)
    return g.text(r.choice([1, 2, 3]))
def illformed(g):
    r = g.r
    t = g.text(r.choice([0, 1, 4]))
    for _ in range(r.choice([1, 1, 2, 5])):
        t.insert(r.randint(0, len(t)), r.choice([0xD800, 0xDBFF, 0xDC00, 0xDFFF, 0x110000, 0x7FFFFFFF, -1, -2147483648, 0x1FFFFF, 0xFFFFFF]))
    return t
def plan_C20(g, tier, rnd):
    r = g.r
    gs = []
    anyenc = lambda t, k=1, s=True: dict(op='any', _call=dict(op='enc', k=k, text=t, special=s))
    anydec = lambda ids, k=1, s=True: dict(op='any', _call=dict(op='dec', k=k, ids=ids, skip=s))
    def one():
        texts = [degenerate(g) for _ in range(4)]
        c = g.config([t[:20] for t in texts])
        ev = [new(c)]
        for t in texts: ev.append(enc(t[:60], g.b()) if len(t) <= 60 else anyenc(t, 1, g.b()))
        for _ in range(3): ev.append(anyenc(illformed(g), 1, g.b()))
        ev.append(add(g.added(r.choice([0, 1, 3])) + [tok([])], via=g.b()))
        ev.append(dict(op='any', _call=dict(op='add', k=1, toks=[tok(g.text(2), sw=g.b(), ls=g.b(), rs=g.b(), nz=g.b(), sp=g.b(), id=r.choice([-1, -2147483648, 2147483647]))])))
        ev.append(anyenc(texts[1]))
        ev.append(anydec([r.choice([-1, 0, 1, 2, 3, 5, 8, 2147483647, -2147483648]) for _ in range(r.choice([0, 1, 6, 40]))], 1, g.b()))
        ev.append(anydec([], 1, g.b()))
        return ev
    def comps():
        out = []
        for _ in range(3):
            t = degenerate(g)[:40]
            out.append(norm_ev(g.norm(), t)); out.append(pre_event(g, t=t))
            out.append(dict(op='chain', cfg=g.dec(bl=False), toks=dec_tokens(g)))
            out.append(dict(op='post', cfg=g.post(), e=rand_encoding(g), special=g.b()))
            out.append(dict(op='pad', cfg=g.pad(), e=rand_encoding(g)))
        bad = illformed(g)
        out.append(dict(op='any', _call=dict(op='norm', json=dumps(vcfg.norm(g.norm())), **{'in': dict(c=bad, o=[[i, i + 1] for i in range(len(bad))])})))
        return out
    def bytesadd():
        c = cfg(added=[tok('a')], model=[g.wordpiece([U('ab')])], norm=[] if g.b() else [g.norm()], pre=[] if g.b() else [g.pre()], dec=[] if g.b() else [g.dec()])
        raw = [r.choice([0x80, 0xC3, 0xFF, 0xE4, 0xB8, 0xF0, 0x41, 0xED, 0xA0, 0x20]) for _ in range(r.choice([1, 2, 4]))]
        t = dict(tok([], nz=g.b(), sp=g.b(), sw=g.b()), bytes=raw)
        return [new(c), dict(op='any', _call=dict(op='add', k=1, toks=[t])), anyenc(g.text(5)), anyenc([0xFFFD, 97, 0xFFFD]), anydec(list(range(12)), 1, False)]
    gs += reps(one, scale(tier, 450)) + reps(comps, scale(tier, 100)) + reps(bytesadd, scale(tier, 40))
    if rnd == 0:
        # one token of every kind of template, truncation and padding around nothing
        for n in range(0, 3):
            for m in (0, 1, 2, 5):
                for s in (0, 1, 4):
                    for post in ([], [g.template()]):
                        c = cfg(trunc=[dict(dir=r.choice(['Left', 'Right']), strat='LongestFirst', max=m, stride=s)], pad=[g.pad()] if g.b() else [], post=post, pre=[dict(k='Bert')],
                                model=[dict(k='WordPiece', vocab=[[U('a'), 0], [U('?'), 1]], unk=U('?'), cont=U('##'), maxc=100)])
                        gs.append([new(c), enc(U('a ' * n), True), enc(U('a ' * n), False)])
        # long inputs: only that the calls end
        for k in range(6 if tier == 'quick' else 12):
            t = [g.char() for _ in range(60)]
            c = REAL[k % 3](g, [t[:20]])
            big = r.choice([U('a') * 1000, [32] * 5000, U('a ') * 1500, [0x301] * 600, U("'") * 2000, [0x4E2D] * 2000])
            gs.append([new(c), anyenc(big), anydec([r.randrange(300) for _ in range(3000)], 1, g.b())])
    return gs

# ---- the Android binding
def java(ev):
    """the session through the binding (which registers no tokens)"""
    out = []
    for e in ev:
        if e['op'] == 'new': out.append(dict(op='jnew', cfg=e['cfg']))
        elif e['op'] == 'enc': out.append(dict(op='jenc', k=e['k'], u=u16(''.join(map(chr, e['text']))), special=e['special']))
        elif e['op'] == 'dec': out.append(dict(op='jdec', k=e['k'], ids=e['ids'], skip=e['skip']))
    return out
def plan_C21(g, tier, rnd):
    r = g.r
    gs = []
    jenc = lambda t, k=1, s=True: dict(op='jenc', k=k, u=u16(''.join(map(chr, t))), special=s)
    jdec = lambda ids, k=1, s=True: dict(op='jdec', k=k, ids=ids, skip=s)
    anycall = lambda **c: dict(op='any', _call=c)
    utf8 = lambda t: list(''.join(map(chr, t)).encode())
    def wide_text(n):
        return [r.choice([0x1F600, 0x10000, 0x10FFFF, 0x1D400, 0x20000, 0, 0xFFFF, 0xD7FF, 0xE000, 0x301, 0x4E2D, 0xE9, 32, 97, 98]) if g.b(.7) else g.char() for _ in range(n)]
    def speller(chars, **k):
        """a tokenizer whose ids spell the text"""
        chars = sorted(set(chars)); ids = r.sample(range(3 * len(chars) + 3), len(chars))
        m = dict(k='BPE', vocab=[[[c], i] for c, i in zip(chars, ids)], merges=[], drop=0, unk=[], cont=[], eow=[], fuse=False, bf=False, ign=False)
        return cfg(model=[m], **k), dict(zip(chars, ids))
    def spelled():
        t = [wide_text(r.choice([1, 2, 5, 12])) for _ in range(3)]
        c, ids = speller([x for y in t for x in y], dec=r.choice([[], [dict(k='Fuse')], [dict(k='Replace', p=utf8(t[0][:1]), c=utf8(t[0][-1:]))]]),
                         added=[tok([x for x in wide_text(2)], sp=g.b())] if g.b(.4) else [], norm=r.choice([[], [dict(k='NFC')]]))
        return [dict(op='jnew', cfg=c)] + [jenc(x, 1, g.b()) for x in t] + [jdec([ids[x] for x in y], 1, g.b()) for y in t] + [jdec([], 1), jdec([r.choice([-1, 2**31 - 1, -2**31, 0, 1, 2]) for _ in range(4)])]
    def bytewise():
        # texts through bytes: decoding may leave the middle of a character
        c = cfg(pre=[dict(k='ByteLevel', prefix=g.b(), regex=g.b())], dec=[dict(k='ByteLevel')],
                model=[dict(k='BPE', vocab=[[[BL[i]], i] for i in range(256)], merges=[], drop=0, unk=[], cont=[], eow=[], fuse=False, bf=False, ign=False)])
        t = wide_text(r.choice([1, 3, 6]))
        b = list(''.join(map(chr, t)).encode('utf-8', 'surrogatepass'))
        i, j = sorted((r.randint(0, len(b)), r.randint(0, len(b))))
        return [dict(op='jnew', cfg=c), jenc(t), jdec(b), jdec(b[i:j]), jdec([r.randrange(256) for _ in range(5)]), jdec([0xED, 0xA0, 0xBD, 0xED, 0xB8, 0x80]), jdec([0xC0, 0x80])]
    def whole():
        texts = [wide_text(r.choice([0, 2, 8])), g.text(), sentence(g)]
        c = g.config(texts) if g.b(.7) else r.choice(REAL)(g, texts)
        if any(m.get('drop') == 2 for m in c['model']): c['model'] = [g.wordpiece([U('ab')])]
        return java(session(g, c, texts, adds=0))
    def bad_units():
        t = wide_text(r.choice([0, 1, 3])); u = u16(''.join(map(chr, t)))
        for _ in range(r.choice([1, 1, 2, 4])): u.insert(r.randint(0, len(u)), r.choice([0xD800, 0xDBFF, 0xDC00, 0xDFFF, 0xD83D, 0xDE00]))
        return u
    def odd():
        texts = [g.text(5), wide_text(3)]
        c = g.config(texts)
        if any(m.get('drop') == 2 for m in c['model']): c['model'] = [g.wordpiece([U('ab')])]
        good = u16(dumps(vcfg.tokenizer(c))); bad = list(good); bad.insert(r.randint(0, len(bad)), r.choice([0xD83D, 0xDE00, 0]))
        ev = [dict(op='jnew', cfg=c), jenc(texts[0])]
        odd_calls = [dict(op='jenc', k=1, u=bad_units(), special=g.b()), anycall(op='jenc', k=1, u=None, special=g.b()), anycall(op='jdec', k=1, ids=None, skip=g.b()),
                     anycall(op='jnew', u=None), anycall(op='jnew', u=bad), dict(op='jnew', u=[]), dict(op='jnew', u=u16('{')), jenc(texts[1]), jdec([0, 1, 2])]
        r.shuffle(odd_calls)
        # a failed construction makes no tokenizer
        return ev + odd_calls[:r.randint(3, 9)] + [jenc(texts[0]), jenc(texts[1])]
    def rejected():
        c = g.config([g.text(4)])
        c['model'] = [dict(m, vocab=m['vocab'][:6]) for m in c['model']] or [g.wordpiece([U('ab')])]
        for m in c['model']:
            if 'merges' in m: m['merges'] = []
        ms = mutants(g, vcfg.tokenizer(c))
        ev = []
        for x in r.sample(ms, min(len(ms), 6)):
            try: s = x.decode('utf-8') if isinstance(x, bytes) else x
            except UnicodeDecodeError: continue
            if isinstance(s, str): ev.append(dict(op='jnew', u=u16(s)))
        return ev or [dict(op='jnew', u=u16('{}'))]
    def throwing():
        # truncation whose stride leaves no room throws in encode; afterwards all is as before
        t = U('a b c d e f')
        c = cfg(trunc=[dict(dir='Right', strat='LongestFirst', max=r.choice([1, 2]), stride=2)], pre=[dict(k='Bert')], model=[g.wordpiece([U('a')])])
        ok = [0x1F600] + U(' a')
        return [dict(op='jnew', cfg=c)] + [jenc(x) for x in (U('a'), t, U('a'), t, ok[:1])] + [jdec([0, 1])]
    def threads():
        texts = [wide_text(4) for _ in range(3)] + [sentence(g)]
        c, ids = speller([x for y in texts for x in y])
        d = r.choice(REAL)(g, texts)
        wordy = [[r.choice(t) for _ in range(r.choice([1, 30, 120]))] for t in texts]
        some = r.choice([[0], [2], [0, 2], [0, 1, 2]])
        kinds = [lambda: jenc(r.choice(wordy), 1), lambda: jenc(r.choice(texts), 2, g.b()), lambda: jdec([ids[x] for x in r.choice(wordy)], 1)]
        calls = lambda: [kinds[i]() for i in r.choices(some, k=4)]
        return [dict(op='jnew', cfg=c), dict(op='jnew', cfg=d), dict(op='jpar', threads=[calls() for _ in range(r.choice([2, 4]))], rounds=60)]
    n = scale(tier, 1)
    gs += reps(spelled, 120 * n) + reps(bytewise, 60 * n) + reps(whole, 150 * n) + reps(odd, 60 * n) + reps(rejected, 60 * n) + reps(throwing, 6) + reps(threads, 12 * n)
    if rnd == 0:
        # characters that something between might take for its own, at either end and alone
        own = [0xFEFF, 0xFFFE, 0xFFFF, 0xFFFD, 0, 1, 4, 9, 10, 13, 26, 27, 32, 34, 39, 92, 0x7F, 0x80, 0x85, 0xA0, 0xC0, 0xED, 0xFF, 0x100, 0x7FF, 0x800, 0x2028, 0x2029, 0x200B, 0x200E, 0x202E, 0x3000, 0xD7FF, 0xE000, 0xF8FF, 0xFDD0,
               0x10000, 0x103FF, 0x10400, 0x1F600, 0x1FFFF, 0x20000, 0xFFFFF, 0x100000, 0x10FC00, 0x10FFFE, 0x10FFFF, 0xE0001, 0x301, 0x200D, 0xFE0F] + [r.randrange(0x80, 0xD800) for _ in range(30)] + [r.randrange(0xE000, 0x110000) for _ in range(30)]
        c, ids = speller(own + [97, 0x1D400])
        calls = [e for x in sorted(set(own)) for t in ([x], [x, 97], [97, x], [x, x, 0x1D400], [0x1D400, x, 97]) for e in (jenc(t), jdec([ids[y] for y in t]))]
        gs += [[dict(op='jnew', cfg=c)] + calls[i::12] for i in range(12)]
        # characters around every break point of the tables, and a sample of the rest
        pts = [c for rs in near_ranges(r, parts=1, inside=2, edge=2, small=6) for a, b in rs for c in range(a, b + 1) if not 0xD800 <= c < 0xE000]
        if tier == 'quick': pts = sorted(r.sample(pts, min(len(pts), 6000)))
        for i in range(0, len(pts), 150):
            c, ids = speller(pts[i:i + 150])
            gs.append([dict(op='jnew', cfg=c), jenc(pts[i:i + 150]), jdec([ids[x] for x in pts[i:i + 150]], 1, False)])
    return gs

# ---- the parts on their own
def settled(n):
    """a normalizer every switch of which is given"""
    if n['k'] == 'Seq': return dict(n, l=[settled(x) for x in n['l']])
    return dict(n, strip=n['strip'] % 2) if n['k'] == 'Bert' else n
def plan_C22(g, tier, rnd):
    r = g.r
    gs = []
    D = dict(_direct=True)
    def bare(e, args=None):
        """given fewer arguments than there are"""
        e = dict(e, **D)
        if args is not None: e['args'] = args
        return e
    def norms():
        t = g.text()
        n = settled(g.norm())
        ev = [bare(norm_ev(n, t)), dict(bare(norm_ev(n, t)), _bare=True)]
        t2 = g.text(6); ev.append(bare(norm_ev(n, t2, o=[[3 * i, 3 * i + 2] for i in range(len(t2))])))
        b = g.norm_of('Bert')
        return ev + [bare(norm_ev(settled(b), g.text()), k) for k in range(5)]
    def pres():
        out = []
        for _ in range(4):
            e = bare(pre_event(g))
            out.append(e)
        t = g.text()
        return out + [dict(bare(pre_ev(g.pre(), t)), _bare=True)]
    def words_of():
        al = r.choice([U('ab'), U('abc'), U('aé') + [0x4E2D, 0x1F600], U('[UNK]#'), LETTERS])
        return [[r.choice(al) for _ in range(r.choice([1, 2, 3, 5, 9]))] for _ in range(6)]
    def wordpieces():
        ws = words_of()
        m = g.wordpiece(ws)
        m['cont'] = r.choice([U('##'), m['cont']])
        long = [ws[0][0]] * r.choice([99, 100, 101])
        v = {tuple(t): i for t, i in m['vocab']}
        toks = [list(t) for t in v] + [x for x in ([ws[0][0]], U('##') + [ws[0][0]], U('[UNK]'), U('##') + ws[1]) if tuple(x) not in v and g.b(.8)]
        m['vocab'] = [[t, i] for t, i in zip([list(x) for x in dict.fromkeys(map(tuple, toks))], r.sample(range(90 + len(toks)), len(toks)))]
        return [bare(dict(op='model', cfg=m, words=ws + [long]), k) for k in (0, 1, 2, 3, None)]
    def bpes():
        if g.b():
            ws = words_of()
            return [bare(dict(op='model', cfg=g.bpe(ws), words=ws + ws[:2]))]
        toks, merges = merges_over(g, U('abc'), r.choice([4, 8]))
        ws = [[r.choice(U('abcd')) for _ in range(r.choice([1, 3, 7, 12]))] for _ in range(6)]
        return [bare(dict(op='model', cfg=dict(k='BPE', vocab=[[t, i] for i, t in enumerate(toks)], merges=merges, drop=r.choice([0, 0, 1]), unk=r.choice([[], toks[0]]), cont=[], eow=[],
                                               fuse=g.b(), bf=False, ign=g.b(.3)), words=ws))]
    def lookups():
        ws = words_of()
        m = g.wordpiece(ws) if g.b() else g.bpe(ws)
        v = m['vocab']
        if g.b(.2) and [] not in [t for t, _ in v]: v.append([[], max([i for _, i in v], default=-1) + r.choice([1, 2, 500])])
        if g.b(.2) and len(v) > 1: v[r.randrange(len(v))][1] = r.choice(v)[1]
        ask = [t for t, i in r.sample(v, min(len(v), 8))] + [[], U('zz'), g.text(3)] + [t[:-1] for t, i in v[:3]] + [t + U('a') for t, i in v[:3]]
        ids = [i for t, i in r.sample(v, min(len(v), 8))] + [-1, 0, 1, len(v), len(v) - 1, 2 ** 31 - 1, -2 ** 31]
        e = dict(op='lookup', cfg=m, ask=ask, ids=ids)
        return [e, bare(e)]
    def decs():
        out = [bare(dict(op='chain', cfg=g.dec(), toks=dec_tokens(g))), bare(dict(op='join', cfg=g.dec(bl=False), toks=dec_tokens(g)))]
        w = dict(k='WordPiece', prefix=r.choice([B('##'), B(''), B('▁'), B('#')]), cleanup=g.b())
        toks = [B(x) for x in r.choices(['##a', 'a', ' .', "n't", ' do not', '##', '#b', '▁c', "##'s", 'x', '!', ' ', '##.'], k=r.choice([0, 1, 4, 7]))]
        return out + [bare(dict(op='chain', cfg=w, toks=toks), k) for k in (0, 1, 2)]
    def encs():
        e = rand_encoding(g)
        t = g.trunc(); p = g.pad(); n = len(e['ids'])
        out = [bare(dict(op='trunc', cfg=dict(t, max=r.choice([t['max'], n, max(0, n - 1)])), e=rand_encoding(g, depth=1))), bare(dict(op='pad', cfg=p, e=e)), bare(dict(op='post', cfg=g.post(), e=e, special=g.b()))]
        # padding to the longest pays no attention to the fixed size
        return out + [dict(bare(dict(op='pad', cfg=dict(p, fixed=[]), e=e)), _size=r.choice([-1, 0, 3, 50]))]
    def regs():
        base = r.choice([U('a'), U('ab'), U('é'), [0x1F600], U('b c'), U('A')])
        conts = [base, base + base[:1], base[:1], U('<s>'), U('x'), g.text(2), g.text(1), [], [0x212B], [32] + base]
        def token():
            return dict(content=list(r.choice(conts)), sw=g.b(.2), ls=g.b(.25), rs=g.b(.25), nz=g.b(.4), sp=g.b(.4), args=r.choice([2, 3, 4, 5, 6, 7, 7, 7, 7]))
        # which of several tokens that look the same when normalized is meant depends on ids: fine; one content has one id
        model = [] if g.b(.4) else [g.wordpiece([r.choice(conts) or U('a'), U('ab')])]
        norm = [] if g.b(.4) else [settled(g.norm())]
        batches = [dict(toks=[token() for _ in range(r.choice([0, 1, 2, 4]))], via=g.b()) for _ in range(r.choice([1, 1, 2, 3]))]
        texts = [near_text(g, [tok(c) for c in conts if c]) for _ in range(3)] + [[]]
        return [dict(op='reg', model=model, norm=norm, batches=batches, ids=[-1, 0, 1, 2, 3, 4, 5, 8, 13, 200], ask=conts[:6] + [U('nope')], texts=texts)]
    def cuts():
        out = []
        for _ in range(3):
            t = g.text(r.choice([0, 1, 3, 6, 12]))
            some = sorted(set(r.sample(t, min(len(t), 2)) + [32]))
            out.append(dict(op='cut', n=dict(c=t, o=[[i, i + 1] for i in range(len(t))]), s=splits_of(g, len(t)) if g.b() else [[0, len(t), False]], set=some, runs=g.b(), beh=r.choice(BEHS)))
        return out
    def merging():
        k = r.choice([2, 3, 4])
        n = r.choice([0, 1, 2, 3, 5, 8, 14])
        syms, at = [], r.choice([0, 0, 3])
        for _ in range(n):
            w = r.choice([1, 1, 2]); syms.append([r.randrange(k), at, w]); at += w
        tbl = []
        new = k
        for a in range(k + 3):
            for b in range(k + 3):
                if g.b(.3):
                    # merges of equal rank make the same token or are told apart by place
                    tbl.append([a, b, len(tbl), new]); new += g.b(.7)
        ranks = list(range(len(tbl))); r.shuffle(ranks)
        for x, q in zip(tbl, ranks): x[2] = q
        return [dict(op='word', syms=syms, tbl=tbl, drop=r.choice([0, 0, 0, 1]))]
    def moved():
        texts = [g.text(5), sentence(g)]
        c = g.config(texts)
        if any(m.get('drop') == 2 for m in c['model']): c['model'] = [g.wordpiece([U('ab')])]
        ev = session(g, c, texts, adds=1)
        out = []
        for e in ev:
            out.append(e)
            if g.b(.4): out.append(dict(op='move', k=1))
        return out
    n = scale(tier, 1)
    for f, m in ((norms, 120), (pres, 120), (wordpieces, 60), (bpes, 120), (lookups, 100), (decs, 150), (encs, 200), (regs, 250), (cuts, 120), (merging, 300), (moved, 60)): gs += reps(f, m * n)
    if rnd == 0:
        gs.append([dict(op='bytemap')])
        for comp in ('toutf8', 'fromutf8'):
            for p, s in (([], []), (U('a'), [0x4E2D]), ([0x1F600], U('b'))): gs += sweeps(comp, [], p, s, full_ranges())
        words = small_texts(U('ab'), 4)
        for a in range(8):     # every table of merges over two symbols in which the ranks compete
            for perm in itertools.permutations([[0, 0], [0, 1], [1, 0], [1, 1]], 3):
                tbl = [p + [q, 2 + q] for q, p in enumerate(perm)] + [[2, x, 3 + x, 5 + x] for x in range(a % 3)] + [[x, 3, 6 + x, 8] for x in range(a // 3)]
                gs.append([dict(op='word', syms=[[c - 97, i, 1] for i, c in enumerate(w)], tbl=tbl, drop=0) for w in words[::3]])
    return gs

def with_large(prop, plan):
    def both(g, tier, rnd):
        import vlarge
        gs = plan(g, tier, rnd)
        if rnd == 0 and prop in vlarge.LARGE: gs = gs + vlarge.LARGE[prop](g, tier)
        return gs
    return both
PLANS = {k[5:]: with_large(k[5:], v) for k, v in list(globals().items()) if k.startswith('plan_C')}
