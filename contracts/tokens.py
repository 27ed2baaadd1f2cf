"""Contracts on nxt/tokens.py (C03)."""
from pyvc.engine import Loop


def register(reg):
    c = reg.contract
    c('tokens.make_token_str', params={'token_content': 'str'}, returns='str',
      ensures={'wrapped': "result == '${' + token_content + '}'"},
      props=['C03', 'C04'])
    c('tokens.get_token_content', params={'token_str': 'str'}, returns='str',
      ensures={'roundtrip': "implies(token_str.startswith('${') and "
               "token_str.endswith('}') and len(token_str) >= 3, "
               "result == token_str[2:len(token_str) - 1])"},
      props=['C03', 'C04'])
    c('tokens.atomic_token_partition', params={'value': 'str'},
      returns='tuple[opt[str],opt[str],opt[str]]',
      ensures={
          'all-or-none': "is_none(result[0]) == is_none(result[1]) and "
          "is_none(result[1]) == is_none(result[2])",
          'none': "is_none(result[0]) == ('${' not in value or '}' not in "
          "value.rpartition('${')[2])",
          'whole': "implies(not is_none(result[0]), some(result[0]) + "
          "some(result[1]) + some(result[2]) == value)",
          'token': "implies(not is_none(result[0]), "
          "some(result[1]).startswith('${') and "
          "some(result[1]).endswith('}') and len(some(result[1])) >= 3)",
          'atomic': "implies(not is_none(result[0]), '}' not in "
          "some(result[1])[2:len(some(result[1])) - 1] and '${' not in "
          "some(result[1])[2:] and '${' not in some(result[2]))"},
      props=['C03', 'C04'])
    # opening and closing marks among the first i characters; `mark` unfolds
    # one step of their definition
    reg.uf('opens', ['str', 'int'], 'int')
    reg.uf('closes', ['str', 'int'], 'int')
    reg.uf('mark', ['str', 'int'], 'bool', axioms=[
        ('s: str, i: int',
         "mark(s, i) and implies(i >= 0, "
         "opens(s, 0) == 0 and closes(s, 0) == 0 and "
         "opens(s, i + 1) == opens(s, i) + "
         "(1 if s[i:i + 2] == '${' else 0) and "
         "closes(s, i + 1) == closes(s, i) + "
         "(1 if s[i:i + 1] == '}' else 0))", "mark(s, i)")])
    # an outermost balanced token: it closes at b and not before
    reg.uf('token_at', ['str', 'int', 'int'], 'bool', axioms=[
        ('s: str, a: int, b: int',
         "token_at(s, a, b) == (0 <= a and a + 3 <= b and b <= len(s) and "
         "s[a:a + 2] == '${' and s[b - 1:b] == '}' and "
         "opens(s, b) - opens(s, a) == closes(s, b) - closes(s, a) and "
         "all(opens(s, k) - opens(s, a) > closes(s, k) - closes(s, a) "
         "for k in range(a + 1, b)))", "token_at(s, a, b)")])
    reg.lemma('token_prefix', {'s': 'str', 'a': 'int', 'b': 'int'},
              requires=["token_at(s, a, b)"],
              ensures=["s[a:b].startswith('${')"], pattern="token_at(s, a, b)",
              props=['C03'])
    reg.macros['last_end'] = (
        ['bs'], "0 if len(bs) == 0 else bs[len(bs) - 1][1]")
    tokens = "all(token_at(raw_value, %s[j][0], %s[j][1]) " \
        "for j in range(0, len(%s)))"
    order = "all(%s[j - 1][1] <= %s[j][0] and " \
        "opens(raw_value, %s[j][0]) == opens(raw_value, %s[j - 1][1]) " \
        "for j in range(1, len(%s)))"
    first = "implies(len(%s) > 0, opens(raw_value, %s[0][0]) == 0)"

    def of(t, n):
        return t.replace('%s', n)
    scan = Loop(inv={
          'i': "i == _i and mark(raw_value, i) and mark(raw_value, i - 1)",
          'idle': "implies(starts == 0, ends == 0 and outer_start_idx == -1 "
          "and opens(raw_value, last_end(bounds)) == opens(raw_value, i))",
          'pos': "starts >= 0 and ends >= 0",
          'open': "implies(starts > 0, 0 <= outer_start_idx and "
          "outer_start_idx < i and raw_value[outer_start_idx:"
          "outer_start_idx + 2] == '${' and "
          "last_end(bounds) <= outer_start_idx and "
          "opens(raw_value, outer_start_idx) == "
          "opens(raw_value, last_end(bounds)))",
          'counts': "implies(starts > 0, starts == opens(raw_value, i) - "
          "opens(raw_value, outer_start_idx) and ends == "
          "closes(raw_value, i) - closes(raw_value, outer_start_idx) and "
          "ends < starts)",
          'within': "implies(starts > 0, all(opens(raw_value, k) - "
          "opens(raw_value, outer_start_idx) > closes(raw_value, k) - "
          "closes(raw_value, outer_start_idx) "
          "for k in range(outer_start_idx + 1, i + 1)))",
          'tokens': of(tokens, 'bounds'),
          'order': of(order, 'bounds'),
          'first': of(first, 'bounds'),
          'end': "0 <= last_end(bounds) and last_end(bounds) <= i"})
    c('tokens.get_standalone_tokens', case='default',
      params={'raw_value': 'str'}, returns='list[str]',
      witness={'bounds': 'list[tuple[int,int]]'},
      locals_={'bounds': 'list[tuple[int,int]]', 'results': 'list[str]'},
      ensures={
          'empty': "implies(raw_value == '', len(result) == 0)",
          'one-each': "implies(len(result) > 0, "
          "len(result) == len(w_bounds) and "
          "all(result[j] == raw_value[w_bounds[j][0]:w_bounds[j][1]] "
          "for j in range(0, len(result))))",
          'outermost': "implies(len(result) > 0, " +
          of(tokens, 'w_bounds') + ")",
          'in-order': "implies(len(result) > 0, " +
          of(order, 'w_bounds') + " and " + of(first, 'w_bounds') + ")",
          'all-of-them': "implies(len(result) > 0, opens(raw_value, "
          "last_end(w_bounds)) == opens(raw_value, len(raw_value)))",
          'none': "implies(raw_value != '' and len(result) == 0, "
          "opens(raw_value, last_end(w_bounds)) != "
          "opens(raw_value, len(raw_value)) or "
          "opens(raw_value, len(raw_value)) == 0)"},
      loops={0: scan, 1: Loop(inv={
              'one-each': "len(results) == _i",
              'same': "all(results[j] == "
              "raw_value[bounds[j][0]:bounds[j][1]] "
              "for j in range(0, _i))"})},
      uses=['token_prefix'], props=['C03'])
    reg.attrs['Token.prefix'] = 'str'
    reg.attrs['prefix'] = 'str'
    # wanted: its content starts with a requested prefix
    wanted = "any(%s.startswith('${' + token_types[k].prefix) " \
        "for k in range(0, %s))"
    reg.uf('wanted', ['str', 'list[obj[tokens.Token]]'], 'bool',
           reads=['Token.prefix'], axioms=[
        ('s: str, ts: list[obj[tokens.Token]]',
         "wanted(s, ts) == any(s.startswith('${' + ts[k].prefix) "
         "for k in range(0, len(ts)))", "wanted(s, ts)")])
    cut = "raw_value[b[0]:b[1]]"
    c('tokens.get_standalone_tokens', case='typed',
      params={'raw_value': 'str', 'token_types': 'list[obj[tokens.Token]]'},
      returns='list[str]',
      witness={'bounds': 'list[tuple[int,int]]'},
      locals_={'bounds': 'list[tuple[int,int]]', 'results': 'list[str]'},
      ensures={
          'empty': "implies(raw_value == '', len(result) == 0)",
          'the-wanted': "implies(raw_value != '' and "
          "opens(raw_value, last_end(w_bounds)) == "
          "opens(raw_value, len(raw_value)), "
          "filtered_map(result, w_bounds, "
          "lambda b: wanted(" + cut + ", token_types), lambda b: " + cut + "))",
          'unclosed': "implies(opens(raw_value, last_end(w_bounds)) != "
          "opens(raw_value, len(raw_value)), len(result) == 0)",
          'outermost': "implies(len(result) > 0, " +
          of(tokens, 'w_bounds') + ")",
          'in-order': "implies(len(result) > 0, " +
          of(order, 'w_bounds') + " and " + of(first, 'w_bounds') + ")",
          'all-of-them': "implies(len(result) > 0, opens(raw_value, "
          "last_end(w_bounds)) == opens(raw_value, len(raw_value)))"},
      loops={0: scan, 1: Loop(inv={
          'the-wanted': "filtered_map(results, bounds, lambda b: "
          "wanted(" + cut + ", token_types), lambda b: " + cut +
          ", _i)"}),
          2: Loop(inv={
              'skip': "skip == (not " + wanted % (
                  'token_contents', '_i') + ")"})},
      uses=['token_prefix'], props=['C03'])
