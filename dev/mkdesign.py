#!/usr/bin/env python3
"""DESIGN.md from dev/design_head.md, properties.jsonl, rules/table.py, the planted bugs and dev/design_tail.md"""
import glob, json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from rules import table

SPECIAL = {
    'C01': 'Rule `gate`: wherever a code point or variant is accepted, the context test is on the path, and is given the position the char is used at and the label it is used in; found by following accepted elements from the prefix search to their use.',
    'C05': 'Typestate on the control-flow graph: `addHandler` opens, `removeHandler` closes; every exit (return, exception at any call, close of the generator) must find it closed.',
    'C06': 'About 2700 obligations: binding of every resolvable call to the signature, class construction, unpacking against what is returned, `%`/`format` arity, names, imports and attributes defined; scripts in tools/ without an extension are read too.',
    'C08': 'Set algebra of the class combinators through the comparison.',
    'C13': 'Each editing function with what it calls substituted: no store to the LGR, its repertoire, classes or references ahead of a statement that can raise. Stores whose later raise is excluded by the state they are made in are excused per construct, with the reason (rules/c13.py).',
    'C17': 'Every construction of an XML parser has resolve_entities/no_network/load_dtd/huge_tree as required; no eval, exec, compile, pickle, yaml, marshal, subprocess, os.system, urlopen in the readers; files are opened from parameters only.',
    'C19': 'Policy of every handler of a refusal in the readers: re-raises without force, reports under force, goes on with the next element, keeps nothing of the invalid one.',
    'C20': 'Interprocedural mutation summaries from every query and report entry point; permitted writes are enumerated (range expansion, pattern cache, check log). What is changed through a private copy does not count.',
    'C30': 'For each memoised function, everything its result reads (parameters, attributes, globals, module state) is in the key by content or never changes. Three recorded findings.',
    'C31': 'Kinds of containers (set, dict keys of sets, ...) are inferred through assignments, operators, returns, attributes, parameters, nested functions and tuples across functions; every use of a set that depends on its order is reported unless the result is sorted or a set again.',
}


def wrap(s, n=135, indent='  '):
    out, line = [], ''
    for w in s.split():
        if len(line) + len(w) > n:
            out.append(line)
            line = indent + w
        else:
            line = (line + ' ' + w) if line.strip() else line + w
    return '\n'.join(out + [line])


props = [json.loads(l) for l in open(os.path.join(HERE, 'properties.jsonl'))]
man = json.load(open(os.path.join(HERE, 'MANIFEST.json')))
na = {x['property']: x['reason'] for x in man['not_applicable']}
out = [open(os.path.join(HERE, 'dev/design_head.md')).read().rstrip()]
out[-1] = out[-1][:out[-1].index('## 2.')] + '## 2. Properties and how each is decided\n\nThe rule names are those of the evidence files; a function is listed under the rule that compares it with its reference.\n'
for p in props:
    if p['id'] in na:
        continue
    t = '- **%s %s.** ' % (p['id'], p['title'])
    t += SPECIAL.get(p['id'], '')
    groups = {}
    for rule, mod, names in table.CONFORM.get(p['id'], []):
        groups.setdefault((rule, mod.split('.', 1)[-1]), []).extend(names.split())
    if groups:
        t += ' Comparison of ' + '; '.join('%s (%s): %s' % (r, m, ', '.join(ns)) for (r, m), ns in groups.items()) + '.'
    out.append(wrap(t))
out.append('\n### Not applicable to this family\n')
for k, v in sorted(na.items()):
    out.append('- **%s** %s' % (k, v))
out.append('\n## 3. Planted bugs\n\nEach is in seeded/ with its demonstration; all pass the existing tests. The checks that report it:\n\n| bug | property | what it breaks | needs | caught by |\n|---|---|---|---|---|')
caught = json.load(open(os.path.join(HERE, 'dev/caught.json')))
for d in sorted(glob.glob(os.path.join(HERE, 'seeded', '*'))):
    m = json.load(open(os.path.join(d, 'meta.json')))
    n = os.path.basename(d)
    out.append('| %s | %s | %s | %s | %s |' % (n, m['property'], str(m['what_it_breaks']).replace('|', '/'), str(m['needs']).replace('|', '/'), ', '.join(caught.get(n, [])) or '**none**'))
fixed = [l.strip() for l in open(os.path.join(HERE, 'known-findings.txt')) if l.startswith('fixed:')]
out.append('\n## 4. Defects found in lgr-core\n\n%d were repaired, each in its own `fix:` commit:\n' % len(fixed))
for l in fixed:
    w = l.split(None, 3)
    out.append('- %s `%s` %s' % (w[1].split('=')[1], w[2], w[3]))
out.append('')
out.append(open(os.path.join(HERE, 'dev/design_tail.md')).read().rstrip())
open(os.path.join(HERE, 'DESIGN.md'), 'w').write('\n'.join(out) + '\n')
