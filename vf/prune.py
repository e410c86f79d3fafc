"""Drops function bodies from a preprocessed C file:
    prune.py IN OUT KEEPFILE
KEEPFILE: lines 'keep NAME' / 'cut NAME'.  A function kept keeps its text, a cut
one gets a body that fails the query when it is reached, every other one is left
as a declaration (reaching it fails the query too: it has no body)."""
import re, sys
TOK = re.compile(r'"(?:[^"\\\n]|\\.)*"|\'(?:[^\'\\\n]|\\.)*\'|[{};]')
BR = re.compile(r'"(?:[^"\\\n]|\\.)*"|\'(?:[^\'\\\n]|\\.)*\'|[{}]')
ATTR = re.compile(r'__attribute__\s*\(\((?:[^()]|\((?:[^()]|\([^()]*\))*\))*\)\)|__extension__|__asm__\s*\([^()]*\)')
LINE = re.compile(r'^[ \t]*#.*$', re.M)
NAME = re.compile(r'([A-Za-z_]\w*)\s*\(')


def func_name(header):
    h = ATTR.sub(' ', LINE.sub(' ', header)).strip()
    if not h.endswith(')') or '=' in h:
        return None
    m = NAME.search(h)
    if not m or m.group(1) in ('typeof', '__typeof__', '_Alignas', '_Static_assert'):
        return None
    return m.group(1)


def prune(text, keep, cut):
    out, pos, start = [], 0, 0
    n = len(text)
    while True:
        m = TOK.search(text, pos)
        if not m:
            out.append(text[start:])
            return ''.join(out)
        t = m.group(0)
        pos = m.end()
        if t == ';':
            out.append(text[start:pos])
            start = pos
        elif t == '{':
            depth, p = 1, pos
            while depth:
                b = BR.search(text, p)
                if not b:
                    raise ValueError('unbalanced')
                c = b.group(0)
                p = b.end()
                depth += (c == '{') - (c == '}')
            header = text[start:m.start()]
            name = func_name(header)
            if name is not None and name not in keep and 'always_inline' not in header:
                if name in cut:
                    out.append(f'{header}{{ __CPROVER_assert(0, "reached {name}, which is outside the encoding"); __CPROVER_assume(0); }}\n')
                else:
                    out.append(header + ';\n')
                start = pos = p
            elif name is not None:
                out.append(text[start:p])
                start = pos = p
            else:
                pos = p      # struct, enum, initialiser: continues up to ';'
    return ''.join(out)


if __name__ == '__main__':
    keep, cut = set(), set()
    for l in open(sys.argv[3]):
        k, x = l.split()
        (keep if k == 'keep' else cut).add(x)
    with open(sys.argv[1], errors='replace') as f:
        t = f.read()
    with open(sys.argv[2], 'w') as f:
        f.write(prune(t, keep, cut))
