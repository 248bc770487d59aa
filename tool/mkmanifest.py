"""Write MANIFEST.json from the properties, the contracts and the table below."""
import json
import os
import sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, 'tool'))
import contracts  # noqa: E402
import props  # noqa: E402

NOTE = ('Every obligation generated from the current sources of the functions under contract is discharged for all inputs and all '
        'iterations; callers are checked against the contracts of their callees. Trusted: the translation of the clang AST to WhyML, '
        'Why3, z3/cvc5, the models of the C++ and C library. A bounded search on the real code supplies failing inputs, and stands in '
        '(labelled bounded in the evidence, never counted as proved) where changed code leaves the translated subset. ')


def main():
    book = contracts.read()
    own = {}
    for k, c in book.fns.items():
        for p in c.props:
            own.setdefault(p, []).append(c.name)
    checks, na = [], []
    for l in open(os.path.join(HERE, 'properties.jsonl')):
        p = json.loads(l)['id']
        if p in props.NOT_APPLICABLE:
            na.append(dict(property=p, reason=props.NOT_APPLICABLE[p]))
            continue
        names = sorted(own.get(p, []))
        checks.append(dict(
            property=p, quick_cmd='python3 tool/prop.py %s' % p, thorough_cmd='VERIF_TIER=thorough python3 tool/prop.py %s' % p,
            evidence_file='evidence/%s.json' % p,
            technique='contracts on the real C++ functions, deductive verification (clang AST -> WhyML -> Why3 -> SMT)',
            level=props.LEVEL.get(p, 'proof'), level_note=NOTE + props.NOTES.get(p, ''),
            theorems=[n + "'vc" for n in names] or ["all functions under contract, in the single header"]))
    m = dict(version=1, setup_cmd='python3 tool/setup.py', checks=checks, not_applicable=na,
             notes='No hooks in /repo: the contracts are attached to the functions of the clang AST by tool/cxx2why.py. See DESIGN.md.')
    with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
        json.dump(m, f, indent=1)
        f.write('\n')


if __name__ == '__main__':
    main()
