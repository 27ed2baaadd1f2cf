"""C03: token parsing against a recursive-descent style oracle working on positions."""
import itertools

from nxt import tokens as tk
from nxt.stage import Stage

PRE = {t.prefix: t for t in tk.TOKENTYPE.ALL}
PIECES = ['${', '}', '$', '{', 'a', '/b.c', 'file::', 'path::', 'contents::', '_nxtpath',
          '_nxtcolor', ' ', '\n', '${a}', '${file::', '}}', '$$', u'\u00e9', 'ex::']


def outer(text):
    """[(start, end)] of the outermost balanced tokens in text order, or None when one is left
    unclosed."""
    out, i, n = [], 0, len(text)
    while i < n:
        if text[i:i + 2] == '${':
            depth, j = 1, i + 2
            # a '{' directly after '$' belongs to the opener, so scanning restarts behind the '$'
            j = i + 1
            while depth:
                if j >= n:
                    return None
                if text[j:j + 2] == '${':
                    depth += 1
                elif text[j] == '}':
                    depth -= 1
                j += 1
            out.append((i, j))
            i = j
        else:
            i += 1
    return out


def one(ctx, text):
    inp = {'text': text}
    ok, got = ctx.guarded('get_standalone_tokens', inp, tk.get_standalone_tokens, text)
    b = outer(text)
    if ok:
        exp = [] if b is None else [text[s:e] for s, e in b]
        ctx.eq('standalone tokens', inp, exp, got)
    for types in ((tk.TOKENTYPE.FILE,), (tk.TOKENTYPE.CONTENTS, tk.TOKENTYPE.PATH),
                  [tk.TOKENTYPE.FILEPATH, tk.TOKENTYPE.FILE], (), (tk.TOKENTYPE.ATTR,)):
        ok, got = ctx.guarded('get_standalone_tokens', inp, tk.get_standalone_tokens, text, types)
        if ok:
            exp = [] if b is None else [text[s:e] for s, e in b if any(
                text[s + 2:e].startswith(t.prefix) for t in types)]
            ctx.eq('standalone tokens of some types', dict(inp, types=[t.prefix for t in types]),
                   exp, got)
    # partition
    for nm, fn, wrap in (('atomic_token_partition', tk.atomic_token_partition, False),
                         ('next_token_partition', getattr(Stage, 'next_token_partition', None),
                          True)):
        if nm == 'next_token_partition':
            continue   # unused and broken upstream (nxt_path has no token constants)
        ok, got = ctx.guarded(nm, inp, fn, text)
        if not ok:
            continue
        last = text.rfind('${')
        close = text.find('}', last + 2) if last >= 0 else -1
        if last < 0 or close < 0:
            ctx.eq('partition without closed token', inp, (None, None, None), tuple(got))
        else:
            ctx.eq('partition', inp, (text[:last], text[last:close + 1], text[close + 1:]),
                   tuple(got))
    ok, got = ctx.guarded('get_atomic_tokens', inp, tk.get_atomic_tokens, text)
    if ok:
        exp = set(atoms(text))
        ctx.eq('atomic tokens', inp, exp, set(got))


def atoms(text):
    last = text.rfind('${')
    close = text.find('}', last + 2) if last >= 0 else -1
    if last < 0 or close < 0:
        return []
    return [text[last:close + 1]] + atoms(text[:last]) + atoms(text[close + 1:])


def wrap(ctx, c):
    inp = {'content': c}
    ok, t = ctx.guarded('make_token_str', inp, tk.make_token_str, c)
    if ok:
        ctx.eq('token text', inp, '${' + c + '}', t)
        ok, r = ctx.guarded('get_token_content', inp, tk.get_token_content, t)
        if ok:
            ctx.eq('content of wrapped content', inp, c, r)


def run(ctx):
    for v in (None, 5, [], ['${a}'], {}, b'${a}', ''):
        ok, got = ctx.guarded('get_standalone_tokens', {'value': repr(v)},
                              tk.get_standalone_tokens, v)
        if ok:
            ctx.eq('standalone tokens of a non string', {'value': repr(v)}, [], got)
        ctx.case('non-string')
    for d in range(0, 8):
        for t in itertools.product('${}a', repeat=d):
            text = ''.join(t)
            one(ctx, text)
            wrap(ctx, text)
            ctx.case('small')
        if not ctx.slice(1)() or ctx.budget < 15 and d >= 6:
            break
    for item in ctx.extra:
        for v in item.values():
            if isinstance(v, str):
                one(ctx, v)
                wrap(ctx, v)
    rng = ctx.rng
    while ctx.more():
        text = ''.join(rng.choice(PIECES) for _ in range(rng.randrange(0, 14)))
        one(ctx, text)
        wrap(ctx, text)
        ctx.case('random')
        ctx.seen(text)


def replay(ctx, rec):
    i = rec['input']
    if 'content' in i:
        wrap(ctx, i['content'])
    elif 'text' in i:
        one(ctx, i['text'])
