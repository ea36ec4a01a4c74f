"""damage to source texts, at the level of bytes, tokens and lines"""
import glob, os, re
import build as B

TOKENS = ['var', 'const', 'function', 'if', 'else', 'end', 'while', 'for', 'to', 'return', 'import', 'not', 'and', 'or', 'none',
          '(', ')', '[', ']', ',', '.', '=', '==', '<', '>', '<=', '>=', '+', '-', '*', '/', '%', '\n', '"', '"s"', '0', '1', '7', '2.5', '#', 'x', 'a',
          'main', 'length', 'abs', 'len', '2147483647', '2147483648', '99999999999999999999', '1.', '.5', '-', '\t', '\r', '0.0', 'end\n', '\\', '!', '@', '&']
TOKRE = re.compile(r'"[^"\n]*"|[A-Za-z_]\w*|\d+\.?\d*|==|<=|>=|\n|[ \t]+|.', re.S)
_corpus = {}


def corpus(sub=('tests', 'examples', 'regression')):
    """the sample programs that come with the repository"""
    k = tuple(sub)
    if k not in _corpus:
        out = []
        for s in sub:
            for f in sorted(glob.glob(os.path.join(B.REPO, s, '**', '*.ccml'), recursive=True)):
                with open(f, 'rb') as fd:
                    t = fd.read()
                if 0 < len(t) < 6000:
                    out.append(t.decode('latin1').replace('\0', ' '))
        _corpus[k] = out
    return _corpus[k]


def tokens(t):
    return TOKRE.findall(t)


def mutate_tokens(r, t, n=None, extra=()):
    k = tokens(t)
    d = TOKENS + list(extra)
    for _ in range(n or r.choice([1, 1, 1, 2, 3, 6])):
        if not k:
            k = ['x']
        i = r.randrange(len(k))
        x = r.random()
        if x < 0.25:
            del k[i]
        elif x < 0.45:
            k[i] = r.choice(d)
        elif x < 0.65:
            k.insert(i, r.choice(d) + r.choice(['', ' ']))
        elif x < 0.75:
            j = r.randrange(len(k))
            k[i], k[j] = k[j], k[i]
        elif x < 0.85:
            k[i] = k[r.randrange(len(k))]
        elif x < 0.92:
            j = min(len(k), i + r.randrange(1, 12))
            del k[i:j]
        else:
            j = min(len(k), i + r.randrange(1, 12))
            k[i:i] = k[i:j]
    return ''.join(k)


def mutate_lines(r, t):
    L = t.split('\n')
    for _ in range(r.choice([1, 1, 2, 4])):
        i = r.randrange(len(L))
        x = r.random()
        if x < 0.35:
            del L[i]
        elif x < 0.6:
            L.insert(i, L[r.randrange(len(L))])
        elif x < 0.8:
            j = r.randrange(len(L))
            L[i], L[j] = L[j], L[i]
        else:
            L[i] = L[i][:r.randrange(len(L[i]) + 1)]
        if not L:
            L = ['']
    return '\n'.join(L)


def mutate_bytes(r, t):
    b = bytearray(t.encode('latin1'))
    for _ in range(r.choice([1, 1, 2, 4, 10])):
        if not b:
            b = bytearray(b'x')
        i = r.randrange(len(b))
        x = r.random()
        if x < 0.3:
            b[i] = r.randrange(1, 256)
        elif x < 0.5:
            b[i:i] = bytes([r.randrange(1, 256)])
        elif x < 0.7:
            del b[i]
        elif x < 0.8:
            del b[i:]
        elif x < 0.9:
            b[i] ^= 1 << r.randrange(8)
            b[i] = b[i] or 1
        else:
            j = min(len(b), i + r.randrange(1, 40))
            b[i:i] = b[i:j]
    return b.decode('latin1')


def mutate(r, t, extra=()):
    x = r.random()
    if x < 0.5:
        return mutate_tokens(r, t, extra=extra)
    if x < 0.75:
        return mutate_bytes(r, t)
    if x < 0.95:
        return mutate_lines(r, t)
    return mutate_lines(r, mutate_tokens(r, mutate_bytes(r, t), extra=extra))
