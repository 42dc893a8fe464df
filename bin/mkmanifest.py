#!/usr/bin/env python3
"""MANIFEST.json from the list of properties."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vmodels
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ps = [json.loads(l) for l in open(V + '/properties.jsonl')]
how = {
 'C01': 'Whole-tokenizer sessions (every combination of present and absent stages, random and realistic pipelines) recorded from the code; TLC evaluates Encode and compares everything but offsets.',
 'C02': 'Whole-tokenizer sessions biased to truncation, templates and padding; TLC checks the coherence invariants on every recorded encoding and the derived arrays against Encode.',
 'C03': 'Every Normalize/PreTokenize alignment swept over code points in context, random chains of edits, whole sessions; compared with the alignment the specification carries along.',
 'C04': 'All short texts against chosen token sets, neighbour code points swept, random token sets with normalizers; compared with the Scan operator.',
 'C05': 'Random registration histories on the code, each step compared with AddTokens.',
 'C06': 'All code points in two contexts and all canonical pairs through the four forms, random mark sequences; compared with the specification of the normal forms.',
 'C07': 'All code points through the 24 settings of the switches, random texts, other locales; compared with BertNormalize.',
 'C08': 'All small pattern/content/text combinations, all code points, random compositions; compared with the rewriting operators.',
 'C09': 'All short texts against chosen delimiters, behaviors and inversions, swept code points, random regular expressions and claimed pieces; compared with the partition operators.',
 'C10': 'Swept code points in context through the GPT-2 pattern, all pairs of pieces, decoding in random groupings; compared with ByteLevel and its decoder.',
 'C11': 'All words over small vocabularies and random ones; compared with the declarative longest-match operator.',
 'C12': 'All words over small merge lists and random ones; compared with the stepwise merge relation (for dropout: membership of the reachable results).',
 'C13': 'All lengths, limits, strides and directions up to a bound and random tokenizers; compared with the window operators, whose covering and bounding properties TLC checks.',
 'C14': 'Random encodings and templates, all small trim cases, whole sessions; compared with PostProcess.',
 'C15': 'All small sizes and random encodings with overflow; compared with Pad.',
 'C16': 'All short byte-token sequences and strips, random decoder chains and decode calls; compared with DecodeChain and Decode.',
 'C17': 'The specification reads every document from its bytes (JsonText, RegexSyntax, Config) and says whether it is honoured, rejected or left open: documents rendered in many equivalent ways are compared by behaviour; thousands with one change in a field, a number, the text or a regular expression must be honoured or rejected as it says.',
 'C18': 'Long histories on several tokenizers in one process; a specification whose Encode has no cache must explain every call.',
 'C19': 'Concurrent calls under ThreadSanitizer, every result compared with the sequential specification.',
 'C20': 'Degenerate texts, ill-formed code points, odd ids and tokens under AddressSanitizer and UBSan with time limits; any behaviour but a result or a standard exception is rejected.',
 'C21': 'The Android binding, compiled from the working tree and driven from Java: every short string over the surrogate boundaries (MC_Binding) and generated configurations, strings, ids, nulls and threads, each result the one the specification gives the library for the same text.',
 'C22': "The parts constructed and called one by one, with every number of arguments: components on random inputs, vocabularies looked into, added vocabularies of one's own, splitting rules and merge tables of one's own, every code point through the UTF-8 conversions, tokenizers moved between calls; compared with the operators the stages of encode and decode are made of.",
}
def models(p):
    ms = vmodels.MODELS.get(p, [])
    return ''.join(' %s (TLC, exhaustive; behaviours replayed on the code): %s.' % (n, vmodels.WHAT[n]) for n, _ in ms)
m = dict(version=1, setup_cmd='bin/setup', hooks=dict(guard='none', enable='The checks need no hooks: the public headers give them everything.', source_commits=[]),
  checks=[dict(property=p['id'], quick_cmd='bin/check %s --tier quick' % p['id'], thorough_cmd='bin/check %s --tier thorough' % p['id'],
     technique='TLA+ specification checked with TLC; traces recorded from the code are validated against it', level='model_checking',
     level_note=how[p['id']] + models(p['id']) + ' Exhaustive within the stated bounds, sampled beyond them; trusts TLC, the Unicode tables and the sanitizers.') for p in ps],
  not_applicable=[], notes='See DESIGN.md; known findings and repairs are in known-findings.txt.')
json.dump(m, open(V + '/MANIFEST.json', 'w'), indent=1)
