"""Abstract configurations (what the specification reads) and their rendering as
tokenizer.json (what the implementation reads)."""
import json

def U(s):            # text -> code points
    return [ord(c) for c in s]
def S(a):            # code points -> str (surrogates kept)
    return ''.join(map(chr, a))
def B(s):            # text -> UTF-8 bytes
    return list(s.encode('utf-8'))
def BS(b):           # UTF-8 bytes -> str
    return bytes(b).decode('utf-8')

def dumps(x):
    return json.dumps(x, ensure_ascii=False)

# ---- regular expressions
def _esc(c):
    if chr(c) in r':\^$.|?*+()[]{}-&~#/ ' or c < 32:
        return '\\x{%x}' % c
    return chr(c)
def _item(it):
    if it['t'] == 'r':
        return _esc(it['a']) if it['a'] == it['b'] else _esc(it['a']) + '-' + _esc(it['b'])
    if it['t'] == 'g':
        return '\\p{%s}' % it['g']
    return '\\' + it['t']
def regex(e):
    k = e['k']
    if k == 'lit':
        s = ''.join(_esc(c) if c != 32 else ' ' for c in e['s'])
        return '(?i:%s)' % s if e['ci'] else ('(?:%s)' % s if len(e['s']) != 1 else s)
    if k == 'cls':
        if len(e['items']) == 1 and not e['neg'] and e['items'][0]['t'] != 'r':
            return _item(e['items'][0])
        return '[' + ('^' if e['neg'] else '') + ''.join(_item(i) for i in e['items']) + ']'
    if k == 'seq':
        return '(?:' + ''.join(regex(x) for x in e['l']) + ')'
    if k == 'alt':
        return '(?:' + '|'.join(regex(x) for x in e['l']) + ')'
    if k == 'rep':
        q = {(0, 1): '?', (0, -1): '*', (1, -1): '+'}.get((e['min'], e['max']))
        if q is None:
            q = '{%d%s}' % (e['min'], '' if e['max'] == e['min'] else (',' if e['max'] < 0 else ',%d' % e['max']))
        inner = regex(e['e'])
        if not _single(e['e']): inner = '(?:' + inner + ')'
        return inner + q + {'greedy': '', 'lazy': '?', 'poss': '+'}[e['mode']]
    if k == 'la': return '(?=' + regex(e['e']) + ')'
    if k == 'nla': return '(?!' + regex(e['e']) + ')'
    if k == 'bot': return r'\A'
    if k == 'eot': return r'\z'
    if k == 'empty': return '(?:)'
    raise ValueError(k)

def _single(e):
    return e['k'] == 'cls' or e['k'] == 'lit' and len(e['s']) == 1 and not e['ci']
def regex_top(e):
    """without the outermost group"""
    if e['k'] == 'seq': return ''.join(regex(x) for x in e['l'])
    if e['k'] == 'alt': return '|'.join(regex(x) for x in e['l'])
    return regex(e)

# ---- components
def norm(n):
    k = n['k']
    if k in ('NFC', 'NFD', 'NFKC', 'NFKD', 'StripAccents'):
        return dict(type=k)
    if k == 'Bert':
        return dict(type='BertNormalizer', clean_text=n['clean'], handle_chinese_chars=n['cjk'],
                    strip_accents={0: False, 1: True, 2: None}[n['strip']], lowercase=n['lower'])
    if k == 'Prepend': return dict(type='Prepend', prepend=S(n['s']))
    if k == 'Replace': return dict(type='Replace', pattern=dict(String=S(n['p'])), content=S(n['c']))
    if k == 'Strip': return dict(type='Strip', strip_left=n['left'], strip_right=n['right'])
    if k == 'Seq': return dict(type='Sequence', normalizers=[norm(x) for x in n['l']])
    raise ValueError(k)
def pre(p):
    k = p['k']
    if k == 'Bert': return dict(type='BertPreTokenizer')
    if k == 'Split': return dict(type='Split', pattern=dict(Regex=regex_top(p['re'])), behavior=p['beh'], invert=p['inv'])
    if k == 'ByteLevel': return dict(type='ByteLevel', add_prefix_space=p['prefix'], trim_offsets=True, use_regex=p['regex'])
    if k == 'Seq': return dict(type='Sequence', pretokenizers=[pre(x) for x in p['l']])
    raise ValueError(k)
def model(m):
    v = {S(t): i for t, i in m['vocab']}
    if m['k'] == 'WordPiece':
        return dict(type='WordPiece', unk_token=S(m['unk']), continuing_subword_prefix=S(m['cont']),
                    max_input_chars_per_word=m['maxc'], vocab=v)
    return dict(type='BPE', dropout={0: None, 1: 1.0, 2: 0.5}[m['drop']], unk_token=S(m['unk']) if m['unk'] else None,
                continuing_subword_prefix=S(m['cont']) if m['cont'] else None,
                end_of_word_suffix=S(m['eow']) if m['eow'] else None, fuse_unk=m['fuse'], byte_fallback=m['bf'],
                ignore_merges=m['ign'], vocab=v, merges=[S(x) for x in m['merges']])
def post(p):
    k = p['k']
    if k == 'Template':
        def piece(x):
            return {'SpecialToken' if x['sp'] else 'Sequence': dict(id=S(x['id']), type_id=x['type'])}
        return dict(type='TemplateProcessing', single=[piece(x) for x in p['single']], pair=[],
                    special_tokens={S(s['id']): dict(id=S(s['id']), ids=s['ids'], tokens=[S(t) for t in s['toks']]) for s in p['specials']})
    if k == 'ByteLevel': return dict(type='ByteLevel', add_prefix_space=p['prefix'], trim_offsets=p['trim'], use_regex=True)
    if k == 'Seq': return dict(type='Sequence', processors=[post(x) for x in p['l']])
    raise ValueError(k)
def dec(d):
    k = d['k']
    if k == 'WordPiece': return dict(type='WordPiece', prefix=BS(d['prefix']), cleanup=d['cleanup'])
    if k == 'Replace': return dict(type='Replace', pattern=dict(String=BS(d['p'])), content=BS(d['c']))
    if k == 'Strip': return dict(type='Strip', content=BS(d['c']), start=d['start'], stop=d['stop'])
    if k in ('ByteFallback', 'Fuse'): return dict(type=k)
    if k == 'ByteLevel': return dict(type=k, add_prefix_space=True, trim_offsets=True, use_regex=True)
    if k == 'Seq': return dict(type='Sequence', decoders=[dec(x) for x in d['l']])
    raise ValueError(k)
def trunc(t):
    return dict(direction=t['dir'], max_length=t['max'], strategy=t['strat'], stride=t['stride'])
def pad(p):
    return dict(strategy=dict(Fixed=p['fixed'][0]) if p['fixed'] else 'BatchLongest', direction=p['dir'],
                pad_to_multiple_of=p['mult'] or None, pad_id=p['id'], pad_type_id=p['type'], pad_token=S(p['tok']))
def added(ts):
    return [dict(id=t.get('id', 0), content=S(t['content']), single_word=t['sw'], lstrip=t['ls'], rstrip=t['rs'],
                 normalized=t['nz'], special=t['sp']) for t in ts]
def _o(f, x):
    return f(x[0]) if x else None
def tokenizer(c):
    return dict(version='1.0', truncation=_o(trunc, c['trunc']), padding=_o(pad, c['pad']), added_tokens=added(c['added']),
                normalizer=_o(norm, c['norm']), pre_tokenizer=_o(pre, c['pre']), post_processor=_o(post, c['post']),
                decoder=_o(dec, c['dec']), model=_o(model, c['model']))

def cfg(**k):
    c = dict(trunc=[], pad=[], added=[], norm=[], pre=[], model=[], post=[], dec=[])
    c.update(k)
    return c
def tok(content, sw=False, ls=False, rs=False, nz=False, sp=False, id=0):
    return dict(content=U(content) if isinstance(content, str) else content, sw=sw, ls=ls, rs=rs, nz=nz, sp=sp, id=id)
