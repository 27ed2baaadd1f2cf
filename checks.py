"""What every check is made of: level, how inputs are drawn, what stays bounded."""

RULE = ('inputs are drawn at random (VERIF_SEED) and from systematic small cases listed in `classes`;'
        ' an input is non-trivial when it is distinct by the key the search records for it. ')
EXPL = ('Contracts on the functions named in functions_under_contract are proved on the current source '
        '(obligations/discharged). What the proofs do not reach is executed against an independent '
        'oracle (evaluations): that part is bounded and not counted as proved. ')
TECHNIQUE = ('contract-based deductive verification: contracts on the real functions, verification '
             'conditions generated from the current source, discharged by z3/cvc5; bounded contract '
             'checking of the real code where no contract reaches')
NOTE = ('The obligations named in the evidence are proved for all inputs from the current source; the '
        'rest of the property is checked on generated inputs only (bounded). Trusted: the verifier '
        '(pyvc), its models of Python strings, lists, dictionaries and exceptions, and the contracts '
        'listed as trusted in the evidence.')
NOTES = ''
NOT_APPLICABLE = []

PROPS = {p: dict(level='other', rule=RULE, explanation=EXPL) for p in
         ['C%02d' % i for i in range(1, 20)]}
for p in ('C01', 'C02', 'C03', 'C05', 'C09', 'C10', 'C12', 'C16', 'C17', 'C18',
          'C19'):
    PROPS[p]['level'] = 'proof'
