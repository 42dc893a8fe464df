"""Random and systematic inputs.  Everything is drawn from one random.Random."""
import itertools, unicodedata
from vcfg import *

LETTERS = U('abcdeABCXYZstrvlm')
DIGITS = U('0179')
PUNCT = U(".,!?'-_()[]{}\"#@&*:;/\\%")
SYMB = U('$+<=>^`|~')
SPACES = [32, 32, 32, 9, 10, 13, 11, 12, 0x85, 0xA0, 0x1680, 0x2003, 0x2028, 0x2029, 0x202F, 0x205F, 0x3000]
CTRL = [0, 1, 7, 8, 0x1B, 0x1F, 0x7F, 0x80, 0x9F, 0xAD, 0x200B, 0x200D, 0x202E, 0x2060, 0xFEFF, 0xFFFD, 0xE0001, 0x600]
ACCENTED = U('éüñÅçôẤǖ') + [0x212B, 0x1E9B, 0x0344, 0x0958, 0xFB1F, 0x1F82, 0x2F800, 0x1D15E]
MARKS = [0x300, 0x301, 0x308, 0x323, 0x327, 0x338, 0x345, 0x93C, 0x5B4, 0x64B, 0x3099, 0x1D165, 0x20D0]
SPMARKS = [0x903, 0x93E, 0x9BE, 0x9C7, 0x20DD, 0x488, 0x1D16D, 0xB57]
JAMO = [0x1100, 0x1112, 0x1161, 0x1175, 0x11A7, 0x11A8, 0x11C2, 0xAC00, 0xAC01, 0xD7A3, 0xD55C]
CJK = [0x4E2D, 0x3400, 0x4DBF, 0x9FFF, 0x20000, 0x2A6DF, 0x2A700, 0x2B73F, 0x2B740, 0x2B81F, 0x2B920, 0x2CEAF, 0xF900, 0xFAFF,
       0x2F800, 0x2FA1F, 0x3042, 0x30AB, 0x33FF, 0x4DC0, 0xA000, 0x2A6E0, 0x2B820, 0x2B91F, 0x2CEB0, 0xF8FF, 0xFB00]
COMPAT = U('ﬁ½Ⅷｆ①㎏…ﷺ') + [0x132, 0x149, 0x1C4, 0x2126, 0x2460, 0x3131, 0xFF21, 0xFF9E, 0x1D400, 0x2002, 0xFE3F]
CASED = U('İIıſßẞÀÉΑΩΣςЯДǅǄ') + [0x10400, 0x13A0, 0xA64A, 0x1E9E, 0x2160, 0x24B6, 0x118A0]
WIDE = U('😀👍🏽𝄞𝔸') + [0x1F468, 0x10FFFF, 0x10FFFD, 0xE000, 0xFFFE, 0x378, 0xE0100, 0x1F1E6]
WORDY = [0x5F, 0x203F, 0x2160, 0x16EE, 0x3007, 0x660, 0x966, 0xB2, 0xBC, 0x2070]
POOLS = dict(letters=LETTERS, digits=DIGITS, punct=PUNCT, symb=SYMB, spaces=SPACES, ctrl=CTRL, acc=ACCENTED, marks=MARKS,
             spmarks=SPMARKS, jamo=JAMO, cjk=CJK, compat=COMPAT, cased=CASED, wide=WIDE, wordy=WORDY)

class Gen:
    def __init__(self, rng):
        self.r = rng

    def char(self, names=None):
        r = self.r
        if names is None:
            x = r.random()
            if x < .25: return r.choice(LETTERS)
            if x < .40: return r.choice(SPACES)
            if x < .97: return r.choice(POOLS[r.choice(list(POOLS))])
            while True:
                c = r.choice([r.randrange(0x300), r.randrange(0x3400), r.randrange(0x10000), r.randrange(0x110000)])
                if not 0xD800 <= c < 0xE000: return c
        return r.choice(POOLS[r.choice(names)])

    def text(self, n=None, names=None, small=None):
        """a text; small: restrict to that many distinct characters"""
        r = self.r
        if n is None: n = r.choice([0, 1, 2, 3, 4, 5, 6, 8, 10, 14, 20])
        if small is None: small = r.random() < .4
        if small:
            al = [self.char(names) for _ in range(r.randint(1, 5))] + ([32] if names is None else [])
            return [r.choice(al) for _ in range(n)]
        return [self.char(names) for _ in range(n)]

    def b(self, p=.5):
        return self.r.random() < p

    # ---- normalizers
    def norm(self, depth=0):
        r = self.r
        k = r.choice(['NFC', 'NFD', 'NFKC', 'NFKD', 'Bert', 'Bert', 'Prepend', 'Replace', 'Replace', 'Strip', 'StripAccents'] +
                     (['Seq'] * 4 if depth < 2 else []))
        return self.norm_of(k, depth)
    def norm_of(self, k, depth=0):
        r = self.r
        if k == 'Bert': return dict(k=k, clean=self.b(), cjk=self.b(), strip=r.randrange(3), lower=self.b())
        if k == 'Prepend': return dict(k=k, s=self.text(r.choice([0, 1, 1, 2, 3])))
        if k == 'Replace':
            p = r.choice([[32], self.text(1), self.text(2), U('aa'), U('ab'), U('aba'), U('``'), self.text(3, small=True), self.text(0)])
            c = r.choice([[0x2581], [], self.text(1), self.text(2), self.text(4), U('a'), p + p])
            return dict(k=k, p=p, c=c)
        if k == 'Strip': return dict(k=k, left=self.b(.6), right=self.b(.6))
        if k == 'Seq': return dict(k=k, l=[self.norm(depth + 1) for _ in range(r.choice([0, 1, 2, 2, 3]))])
        return dict(k=k)

    # ---- regular expressions
    def cls(self):
        r = self.r
        items = []
        for _ in range(r.choice([1, 1, 2])):
            x = r.random()
            if x < .4:
                c = r.choice(LETTERS + DIGITS + PUNCT + [32, 0xE9, 0x4E2D, 0x1F600]); items.append(dict(t='r', a=c, b=c))
            elif x < .5: items.append(dict(t='r', a=97, b=122))
            elif x < .8: items.append(dict(t='g', g=r.choice(['L', 'N', 'P', 'M', 'Lu', 'Ll', 'Nd', 'Zs', 'S', 'Mn'])))
            else: items.append(dict(t=r.choice(['s', 'S', 'd'])))
        return dict(k='cls', neg=self.b(.25), items=items)
    def atom(self):
        r = self.r
        if r.random() < .3:
            if r.random() < .2:
                return dict(k='lit', s=U(r.choice(["'s", "'t", "'re", "'ve", "'ll", 's', 'k'])), ci=True)
            return dict(k='lit', s=r.choice([U('ab'), U('a'), U(' '), U("'s"), U('--'), [0x1F600], U('aa'), self.text(2)]) or U('a'), ci=False)
        return self.cls()
    def regex(self, depth=0):
        r = self.r
        x = r.random()
        if depth >= 3 or x < .25: return self.atom()
        if x < .5:
            mn, mx = r.choice([(0, 1), (1, -1), (1, -1), (0, -1), (1, 3), (2, 2), (0, 2)])
            return dict(k='rep', e=self.regex(depth + 2), min=mn, max=mx, mode=r.choice(['greedy', 'greedy', 'greedy', 'lazy', 'poss']))
        if x < .72: return dict(k='seq', l=[self.regex(depth + 1) for _ in range(r.choice([2, 2, 3]))])
        if x < .92: return dict(k='alt', l=[self.regex(depth + 1) for _ in range(r.choice([2, 2, 3]))])
        if x < .97: return dict(k='seq', l=[self.regex(depth + 1), dict(k=r.choice(['la', 'nla']), e=self.atom())])
        return dict(k=r.choice(['bot', 'eot', 'empty']))
    @staticmethod
    def simple_reps(e):
        """repetitions only of things that cannot match empty (no engine-specific behaviour)"""
        def nullable(e):
            k = e['k']
            if k == 'lit': return len(e['s']) == 0
            if k == 'cls': return False
            if k == 'seq': return all(map(nullable, e['l']))
            if k == 'alt': return any(map(nullable, e['l']))
            if k == 'rep': return e['min'] == 0 or nullable(e['e'])
            return True
        def has_rep(e):
            return e['k'] == 'rep' or any(map(has_rep, e.get('l', []))) or (isinstance(e.get('e'), dict) and has_rep(e['e']))
        k = e['k']
        if k == 'rep': return not nullable(e['e']) and not has_rep(e['e']) and Gen.simple_reps(e['e'])
        if k in ('seq', 'alt'): return all(map(Gen.simple_reps, e['l']))
        if k in ('la', 'nla'): return Gen.simple_reps(e['e'])
        return True
    def good_regex(self):
        while True:
            e = self.regex()
            if self.simple_reps(e): return e

    # ---- pre-tokenizers
    def pre(self, depth=0, kinds=None):
        r = self.r
        k = r.choice(kinds or (['Bert', 'Split', 'Split', 'ByteLevel'] + (['Seq'] if depth < 2 else [])))
        if k == 'Split':
            return dict(k=k, re=self.good_regex(), beh=r.choice(['Removed', 'Isolated', 'MergedWithPrevious', 'MergedWithNext', 'Contiguous']), inv=self.b(.35))
        if k == 'ByteLevel': return dict(k=k, prefix=self.b(), regex=self.b(.7))
        if k == 'Seq': return dict(k=k, l=[self.pre(depth + 1) for _ in range(r.choice([0, 1, 2, 2, 3]))])
        return dict(k=k)

    # ---- models
    def wordpiece(self, words, alphabet=None):
        """a WordPiece model with a vocabulary of pieces of the given words"""
        r = self.r
        cont = r.choice([U('##')] * 3 + [[], U('@'), [0x2581, 0x1F600]])
        toks = []
        for w in words:
            if not w: continue
            for _ in range(r.choice([1, 2, 3, 4])):
                i = r.choice([0, 0, r.randrange(len(w))]); j = r.randint(i + 1, len(w))
                toks.append((cont if i else []) + w[i:j])
            if self.b(.5):
                toks += [(cont if k else []) + [c] for k, c in enumerate(w)]
        # now and then the unknown token looks like a piece of a word
        unk = U('[UNK]') if not toks or self.b(.8) else list(r.choice(toks))
        return dict(k='WordPiece', vocab=self.vocab(toks + ([unk] if self.b(.85) else [])), unk=unk, cont=cont,
                    maxc=r.choice([100, 100, 100, 3, 1, 0, 6]))
    def vocab(self, toks):
        r = self.r
        seen, v = set(), []
        for t in toks:
            k = tuple(t)
            if k in seen: continue
            seen.add(k); v.append(t)
        ids = list(range(len(v)))
        if self.b(.3): ids = r.sample(range(3 * len(v) + 3), len(v))
        elif self.b(.2): r.shuffle(ids)
        return [[t, i] for t, i in zip(v, ids)]
    def bpe(self, words, bytelevel=False):
        r = self.r
        cont = r.choice([[]] * 4 + [U('##')]) if not bytelevel else []
        eow = r.choice([[]] * 4 + [U('</w>'), U('_')]) if not bytelevel else []
        bf = not cont and not eow and self.b(.3)
        chars = []
        for w in words:
            for k, c in enumerate(w):
                if self.b(.85):
                    chars.append((cont if k else []) + [c] + (eow if k == len(w) - 1 else []))
                    if self.b(.2) and len(w) > 1: chars.append((cont if k else []) + [c])
        toks = list(chars)
        parts = [tuple(t) for t in chars]
        merges = []
        for _ in range(r.choice([0, 2, 5, 9, 14])):
            if not parts: break
            w = r.choice(words)
            if len(w) >= 2 and self.b(.7):
                i = r.randrange(len(w) - 1); k = r.randint(i + 1, len(w) - 1); j = r.randint(k + 1, len(w))
                def piece(a, b): return (cont if a else []) + w[a:b] + (eow if b == len(w) else [])
                a, b = piece(i, k), piece(k, j)
            else:
                a = list(r.choice(parts)); b = list(r.choice(parts))
                if cont and b[:len(cont)] != cont: continue
                if eow and a[-len(eow):] == eow: continue
            if 32 in a or len(b) < len(cont): continue
            m = a + b[len(cont):]
            if self.b(.9): toks.append(m); parts.append(tuple(m))
            if self.b(.8): toks += [a, b]
            merges.append(a + [32] + b)
        if self.b(.2): merges += merges[:2]
        r.shuffle(merges) if self.b(.5) else None
        if bf:
            full = self.b(.5)
            toks += [U('<0x%02X>' % x) for x in range(256) if full or self.b(.6)] if self.b(.7) else \
                    [U('<0x%02X>' % x) for c in sum(words, []) for x in chr(c).encode('utf-8', 'surrogatepass') if self.b(.85)]
        unk = r.choice([[], U('<unk>'), U('<unk>')])
        if unk and self.b(.85): toks.append(unk)
        if self.b(.2): toks += [w for w in words if w]
        drop = r.choice([0] * 9 + [1])
        return dict(k='BPE', vocab=self.vocab([t for t in toks if t]), merges=merges, drop=drop, unk=unk, cont=cont, eow=eow,
                    fuse=self.b(), bf=bf, ign=self.b(.25) and not drop)

    # ---- added tokens
    def added(self, n=None, names=('letters', 'spaces', 'punct', 'acc', 'wide', 'cjk'), contents=()):
        r = self.r
        out = []
        base = [U('[CLS]'), U('[SEP]'), U('<s>'), U('a'), U('ab'), U('abc'), U('b'), U('b c'), [0x1F600], U('é'), U('É'), U('X')] + list(contents)
        for _ in range(r.choice([0, 1, 2, 3, 5]) if n is None else n):
            c = r.choice(base) if self.b(.75) else self.text(r.choice([1, 2, 3]), names=list(names))
            if out and self.b(.3): c = r.choice(out)['content'] + r.choice([[], U('b'), U('c'), [32], [0x301]])
            out.append(tok(list(c), sw=self.b(.3), ls=self.b(.3), rs=self.b(.3), nz=self.b(.4), sp=self.b(.4), id=r.choice([0, 0, 5, 1000])))
        return out

    # ---- the rest of the pipeline
    def trunc(self, small=True):
        r = self.r
        m = r.choice([0, 1, 2, 3, 4, 5, 8, 512])
        return dict(dir=r.choice(['Left', 'Right']), strat=r.choice(['LongestFirst', 'LongestFirst', 'OnlyFirst']), max=m,
                    stride=r.choice([0, 0, 0, 1, 2, r.randint(0, max(0, m))]))
    def pad(self):
        r = self.r
        return dict(dir=r.choice(['Left', 'Right']), fixed=r.choice([[], [r.randint(0, 12)]]), id=r.choice([0, 3]), type=r.choice([0, 1, 2]),
                    tok=U('[PAD]'), mult=r.choice([0, 0, 1, 2, 4, 5]))
    def template(self):
        r = self.r
        sp = [dict(id=U('[CLS]'), ids=[101], toks=[U('[CLS]')]), dict(id=U('[SEP]'), ids=[102], toks=[U('[SEP]')]),
              dict(id=U('<two>'), ids=[7, 9], toks=[U('x'), [0x120]])]
        single = [dict(sp=True, id=r.choice(sp)['id'], type=r.randrange(3)) for _ in range(r.choice([0, 1, 1, 2]))]
        single += [dict(sp=False, id=U('A'), type=r.randrange(3))]
        single += [dict(sp=True, id=r.choice(sp)['id'], type=r.randrange(3)) for _ in range(r.choice([0, 1, 1, 2]))]
        used = {tuple(x['id']) for x in single if x['sp']}
        return dict(k='Template', single=single, specials=[s for s in sp if tuple(s['id']) in used or self.b(.3)])
    def post(self, depth=0):
        r = self.r
        k = r.choice(['Template', 'Template', 'ByteLevel'] + (['Seq'] if depth == 0 else []))
        if k == 'Template': return self.template()
        if k == 'ByteLevel': return dict(k=k, prefix=self.b(), trim=self.b(.8))
        return dict(k='Seq', l=[self.post(1) for _ in range(r.choice([0, 1, 2]))])

    # ---- decoders
    def dec(self, depth=0, bl=True):
        r = self.r
        ks = ['WordPiece', 'WordPiece', 'Replace', 'Strip', 'ByteFallback', 'Fuse'] + (['ByteLevel'] if bl else []) + (['Seq'] * 3 if depth < 2 else [])
        k = r.choice(ks)
        if k == 'WordPiece': return dict(k=k, prefix=r.choice([B('##'), B('##'), B(''), B('▁')]), cleanup=self.b())
        if k == 'Replace': return dict(k=k, p=r.choice([B('▁'), B(' '), B('a'), B('aa'), B('ab'), B(''), B('é')]), c=r.choice([B(' '), B(''), B('a'), B('aa'), B('xyz'), B('😀')]))
        if k == 'Strip': return dict(k=k, c=r.choice([B(' '), B('a'), B('é'), B('▁'), B('')]), start=r.randrange(4), stop=r.randrange(4))
        if k == 'Seq':
            n = r.choice([0, 1, 2, 3, 4])
            l = [self.dec(depth + 1, bl=False) for _ in range(n)]
            if bl and self.b(.3): l.append(dict(k='ByteLevel'))
            return dict(k=k, l=l)
        return dict(k=k)

    def config(self, texts):
        """a whole configuration whose vocabulary suits the texts"""
        r = self.r
        words = [w for t in texts for w in self.words(t)] or [U('a')]
        pre = [] if self.b(.12) else [self.pre()]
        norm = [] if self.b(.3) else [self.norm()]
        # words as the model will mostly see them
        seen = []
        for w in words:
            seen.append(w)
            s = S(w)
            try:
                for f in ('NFC', 'NFD', 'NFKC'):
                    seen.append(U(unicodedata.normalize(f, s)))
                seen.append(U(s.lower()))
            except Exception:
                pass
        if pre and 'ByteLevel' in json.dumps(pre):
            seen = [bytelevel(w) for w in seen] + [bytelevel([32] + w) for w in words]
        x = r.random()
        bl = bool(pre) and 'ByteLevel' in json.dumps(pre)
        model = [] if x < .06 else [self.wordpiece(seen)] if x < .5 else [self.bpe(seen, bl)]
        return cfg(trunc=[] if self.b(.6) else [self.trunc()], pad=[] if self.b(.7) else [self.pad()],
                   added=self.added(contents=[w for w in words if len(w) < 6][:4]), norm=norm, pre=pre, model=model,
                   post=[] if self.b(.4) else [self.post()], dec=[] if self.b(.2) else [self.dec()])
    @staticmethod
    def words(t):
        out, w = [], []
        for c in t:
            if c in SPACES:
                if w: out.append(w)
                w = []
            else: w.append(c)
        if w: out.append(w)
        return out

def _bl():
    p = list(range(33, 127)) + list(range(161, 173)) + list(range(174, 256))
    m, n = {}, 0
    for b in range(256):
        if b in p: m[b] = b
        else: m[b] = 256 + n; n += 1
    return m
BL = _bl()
def bytelevel(t):
    return [BL[b] for b in S(t).encode('utf-8', 'surrogatepass')]
