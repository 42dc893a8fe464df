"""The exhaustive models of the specification, and what the checks say about themselves."""
import json, os, re, time
import vlib

RULE = ('An evaluation is one public call on the real code whose result TLC compared with the specification. Non-trivial: it is not a construction, '
        'and its input (text, tokens, encoding, ids) is not empty; distinct: the call with its configuration and result occurred once.')
EXPLAIN = {}
ASSUMPTIONS = ['TLC and the CommunityModules evaluate the specification correctly', 'Unicode tables come from Python unicodedata (15.1 subset of ICU agreed on)',
               'clang, its sanitizers and the C++ library are correct', 'ICU, simdjson and the headers outside /repo are as installed']

def nontrivial(e):
    return any(e.get(k) for k in ('text', 'u', 'ids', 'toks', 'words', 's', 'cfg', 'syms', 'batches', 'ask')) or (isinstance(e.get('in'), dict) and bool(e['in'].get('c'))) or (isinstance(e.get('e'), dict) and bool(e['e'].get('ids')))

def known_findings(prop):
    """key -> description of the listed findings"""
    out = {}
    p = os.path.join(vlib.VERIF, 'known-findings.txt')
    if os.path.exists(p):
        for ln in open(p):
            m = re.match(r'finding: property=(\S+) key=(\S+) (.*)', ln)
            if m and m.group(1) == prop: out[m.group(2)] = m.group(3)
    return out

# module -> what TLC checks on it
WHAT = {
 'MC_Added': 'every history of 3 registrations over small contents, flags and vocabularies: ids stable, unique, decodable, recognised',
 'MC_Find': 'every short text against 10 sets of added tokens: pieces tile the text, leftmost, longest, flags as declared',
 'MC_Encode': 'every combination of small truncation, template and padding on texts of every small length: coherence, bounds, nothing lost',
 'MC_Trunc': 'every small length, limit, stride, direction, strategy: windows bound, cover, share exactly stride',
 'MC_Pad': 'every small length, target, multiple, direction, overflow: padding law',
 'MC_Post': 'every small template and every small trimming: template and trimming laws',
 'MC_WordPiece': 'every vocabulary out of 8 (10) entries, every short word: the operator is the declarative longest match',
 'MC_Bpe': 'every short merge list and word: terminal, reachable, ranges tile, equal to pass-by-pass merging of proper lists',
 'MC_BpeQueue': 'the queue algorithm as a state machine over every small merge table: linked, complete queue, refines lowest-rank-leftmost, progress',
 'MC_Norm': 'every short text over 19 (27) special characters, 20 normalizers: laws of the normal forms, alignment, Bert, Strip',
 'MC_Pre': 'every short text over special characters, 58 pre-tokenizers: partition laws, byte-level round trip',
 'MC_Regex': 'every small regular expression on every short text: ends and matches are those of plain backtracking',
 'MC_Decode': 'every short token list, 10 decoders: decoder laws, byte runs',
 'MC_History': 'every sequence of calls on two tokenizers: results are a function of configuration and registrations; frame conditions',
 'MC_Config': 'every small JSON tree in six styles and with one thing wrong; every component in every style, with its fields in another order, one missing, one of another kind: the reader of configurations',
 'MC_Binding': 'every short Java string over the ends of the surrogate areas: which denote a text, that it is unique, encode and decode of each through the binding',
 'MC_Parts': 'every short history of an added vocabulary in every grouping, every short text split by a rule of the caller, every small merge table on every short word, every number of constructor arguments',
 'MC_Cache': 'the cache protocol under every schedule of 2 (3) threads: exclusion, no torn read, right cache and results, termination',
}
def kinds(cfg):
    if isinstance(cfg, dict):
        return ({cfg['k']} if 'k' in cfg else set()) | set().union(set(), *[kinds(v) for v in cfg.values()])
    if isinstance(cfg, list): return set().union(set(), *[kinds(v) for v in cfg])
    return set()
NF = {'NFC', 'NFD', 'NFKC', 'NFKD'}
def about(*ks): return lambda e: bool(kinds(e['cfg']) & set(ks))
def only(*ks): return lambda e: kinds(e['cfg']) - {'Seq'} <= set(ks)
# property -> (module, which component events to replay)
MODELS = {
 'C01': [('MC_Encode', None)], 'C02': [('MC_Encode', None)], 'C03': [('MC_Norm', None), ('MC_Find', None)],
 'C04': [('MC_Find', None), ('MC_Added', None)], 'C05': [('MC_Added', None)],
 'C06': [('MC_Norm', only(*NF))], 'C07': [('MC_Norm', only('Bert'))], 'C08': [('MC_Norm', lambda e: not only(*NF)(e) and not only('Bert')(e))],
 'C09': [('MC_Pre', lambda e: not about('ByteLevel')(e)), ('MC_Regex', None)], 'C10': [('MC_Pre', about('ByteLevel'))],
 'C11': [('MC_WordPiece', None)], 'C12': [('MC_Bpe', None), ('MC_BpeQueue', None), ('MC_History', None)],
 'C13': [('MC_Trunc', None), ('MC_Encode', None)], 'C14': [('MC_Post', None), ('MC_Encode', None)], 'C15': [('MC_Pad', None), ('MC_Encode', None)],
 'C16': [('MC_Decode', None), ('MC_Added', None)], 'C17': [('MC_Config', None)], 'C18': [('MC_History', None)], 'C19': [('MC_Cache', None)], 'C21': [('MC_Binding', None)], 'C22': [('MC_Parts', None)],
}
# calls replayed at most in the quick tier (a sample is drawn when there are more)
QUICK_CALLS = 5000
COMPONENTS = {'norm', 'pre', 'model', 'chain', 'trunc', 'post', 'pad', 'lookup', 'reg', 'cut', 'word'}

def group_cases(cases, keep, rng, limit):
    """the sessions that replay the cases"""
    comps, by_new, sessions = [], {}, []
    for c in cases:
        if c[0]['op'] in COMPONENTS or 'src' in c[0]: comps += [e for e in c if keep is None or keep(e)]
        elif c[0]['op'] in ('new', 'jnew') and all(e['op'] in ('enc', 'dec', 'jenc', 'jdec') for e in c[1:]): by_new.setdefault(json.dumps(c[0], sort_keys=True), (c[0], []))[1].extend(c[1:])
        else: sessions.append(c)
    out = []
    rng.shuffle(comps)
    batch, size = [], 0
    for e in comps:
        batch.append(e); size += len(json.dumps(e)) * (8 if e['op'] == 'model' else 1)
        if size > 30000: out.append(batch); batch, size = [], 0
    if batch: out.append(batch)
    for n, calls in by_new.values():
        rng.shuffle(calls)
        out += [[n] + calls[i:i + 40] for i in range(0, len(calls), 40)]
    out += sessions
    rng.shuffle(out)
    total = sum(map(len, out))
    if limit and total > limit:
        n, kept = 0, []
        for g in out:
            if n >= limit: break
            kept.append(g); n += len(g)
        out = kept
    return out, total

def run(prop, tier, seed, log):
    import random
    from concurrent.futures import ThreadPoolExecutor
    todo = MODELS.get(prop, [])
    def one(x):
        mod, keep = x
        t = time.time()
        rc, out = vlib.tlc(mod, env=dict(VERIF_TIER=tier, VERIF_TRACE='', VERIF_PROP=prop), timeout=700 if tier == 'quick' else 3000, workers=max(2, vlib.NCPU // len(todo)), heap='4g' if tier == 'quick' else '8g')
        m = re.search(r'(\d+) states generated, (\d+) distinct', out)
        r = dict(module=mod, states=int(m.group(2)) if m else 0, transitions=int(m.group(1)) if m else 0, seconds=round(time.time() - t, 1), what=WHAT[mod])
        if rc != 0 or 'No error has been found' not in out:
            r['error'] = 'TLC ended with %s: %s' % (rc, '\n'.join(x for x in out.split('\n') if 'CASE' not in x and not re.match('Parsing|Semantic|Linting', x))[-3000:])
            return r
        cases = sorted(set(re.findall(r'^"CASE (.*)"$', out, re.M)))
        cases = [json.loads(c.replace('\\"', '"')) for c in cases]
        groups, total = group_cases(cases, keep, random.Random('%s/%s/%s' % (mod, prop, seed)), QUICK_CALLS if tier == 'quick' else 0)
        r.update(behaviours=len(cases), groups=groups, calls=total, calls_replayed=sum(map(len, groups)))
        log('%s: %d states, %d behaviours, %d of %d calls to replay, %.1fs' % (mod, r['states'], len(cases), r['calls_replayed'], total, r['seconds']))
        return r
    with ThreadPoolExecutor(max(1, len(todo))) as ex:
        return list(ex.map(one, todo))
