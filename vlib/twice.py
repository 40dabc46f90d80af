"""Histories: code under test that keeps something from one call to the next (a static variable) is run a second time, from the state that the first run left."""
import re

# state that is meant to be there, with harnesses of its own
MEANT = {'eml_neighbors_votes', 'eml_debug'}


def mutable_globals(ir):
    """names of the variables of a module that are not constant, and are used by a function that entry reaches"""
    names = set(re.findall(r'^@"?([\w.]+)"? = (?:(?:internal|private|dso_local|linkonce_odr|weak|common|local_unnamed_addr|unnamed_addr) )*global ', ir, re.M))
    uses = {}
    for m in re.finditer(r'^define [^@]*@"?([\w.]+)"?\(.*?^}', ir, re.M | re.S):
        uses[m.group(1)] = set(re.findall(r'@"?([\w.]+)"?', m.group(0)))
    for m in re.finditer(r'^@"?([\w.]+)"? = (.*)$', ir, re.M):
        uses.setdefault(m.group(1), set()).update(re.findall(r'@"?([\w.]+)"?', m.group(2)))
    seen, todo = set(), ['harness']
    while todo:
        f = todo.pop()
        if f not in seen:
            seen.add(f)
            todo += uses.get(f, ())
    return names & seen


def again(source, ir, generated=(), history=False):
    """source with an entry vh_twice (None: nothing is kept from one call to the next)"""
    own, kept = [], []
    for name in sorted(mutable_globals(ir)):
        f, _, var = name.partition('.')
        if not var:
            if f.startswith('vh_') and f in ('vh_file',):
                continue
            (own if re.search(r'\b%s\b' % f, source) else kept).append(name)
        elif not re.search(r'\b%s\s*\([^;{}()]*\)\s*\{' % f, source):
            kept.append(name)
    texts = '\n'.join(generated)
    kept = [n for n in kept if (history or n not in MEANT) and (history or not re.search(r'\b%s\b' % n.split('.')[0], texts)) and not n.startswith(('vh_', '.str', '__', 'std'))]
    if not kept:
        return None
    text = source + '\n/* kept from one call to the next: %s */\n' % ' '.join(kept)
    for n in own:
        text += 'static __typeof__(%s) vh_first_%s;\n' % (n, n)
    text += 'void vh_twice(void)\n{\n'
    for n in own:
        text += '    memcpy(&vh_first_%s, &%s, sizeof(%s));\n' % (n, n, n)
    text += '    harness();\n'
    for n in own:
        text += '    memcpy(&%s, &vh_first_%s, sizeof(%s));\n' % (n, n, n)
    return text + '    harness();\n}\n'
