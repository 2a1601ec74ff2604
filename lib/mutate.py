"""Damages source texts: token and byte level mutations, truncations, splices of pieces of another program."""
import spell
EXTRA = ["begin", "end", ";", "(", ")", "[", "]", "..", ":", ":=", ",", "=", "^", "@", ".", "if", "then", "else", "for", "to", "do", "while", "repeat", "until",
         "case", "of", "with", "goto", "var", "const", "type", "procedure", "function", "record", "array", "set", "file", "string", "nil", "not", "div", "mod",
         "and_then", "in", "forward", "value", "otherwise", "object", "class", "virtual", "static", "inline", "override", "uses", "unit", "interface", "implementation",
         "protected", "private", "label", "default", "import", "module", "0", "1", "-1", "maxint", "2147483648", "9223372036854775807", "99999999999999999999", "1e400", "1.5", "$ff",
         "36#zz", "'a'", "''", "'xyz'", "true", "output", "input", "integer", "char", "real", "boolean", "complex", "writeln", "write", "readln", "new", "dispose", "ord", "chr",
         "succ", "pred", "length", "copy", "sqr", "sizeof", "pow", "**", "><", "+", "-", "*", "/", "<", "><", "bindable", "restricted", "packed", "inherited", "self", "constructor"]

def join(toks, rng):
    out, ln = [], 0
    for k, t in toks:
        out.append(t); ln += len(t) + 1
        if t in (";", "begin", "do", "then") or ln > 100:
            out.append("\n"); ln = 0
        else:
            out.append(" ")
    return "".join(out)

def find_groups(toks):
    """Balanced spans: (start, end) of parenthesised groups, begin..end blocks and statements between separators."""
    st, out, last = [], [], 0
    for i, (k, t) in enumerate(toks):
        l = t.lower()
        if l in ("(", "[", "begin", "record", "case"): st.append(i)
        elif l in (")", "]", "end") and st: out.append((st.pop(), i + 1))
        if l in (";", "then", "do", "else", "begin", ":=", ","):
            if i > last: out.append((last, i))
            last = i + 1
    return out

def tokens_mutated(rng, toks, other, n):
    toks = list(toks)
    ids = [x for x in toks if x[0] == "id"]
    for _ in range(n):
        if not toks: break
        i = rng.randrange(len(toks)); k = rng.randrange(11)
        if k == 0: del toks[i]
        elif k == 1: toks.insert(i, toks[i])
        elif k == 2 and i + 1 < len(toks): toks[i], toks[i + 1] = toks[i + 1], toks[i]
        elif k == 3: toks.insert(i, ("id", rng.choice(EXTRA)))
        elif k == 4: toks[i] = ("id", rng.choice(EXTRA))
        elif k == 5: toks[i] = rng.choice(toks)
        elif k == 6 and ids: toks[i] = rng.choice(ids)
        elif k == 7:
            g = find_groups(toks)
            if g: a, b = rng.choice(g); del toks[a:b]
        elif k == 8:
            g, h = find_groups(toks), find_groups(other)
            if g and h:
                (a, b), (x, y) = rng.choice(g), rng.choice(h)
                if y - x < 60: toks[a:b] = other[x:y]
        elif k == 9:
            g = find_groups(toks)
            if len(g) > 1:
                (a, b), (x, y) = rng.choice(g), rng.choice(g)
                if y - x < 60: toks[a:b] = toks[x:y]
        elif k == 10 and ids:
            j = [q for q in range(len(toks)) if toks[q][0] == "id"]
            toks[rng.choice(j)] = rng.choice(ids)
    return toks

def mutate(rng, src, other):
    """A damaged version of src."""
    k = rng.random()
    if k < .08:
        return src[:rng.randrange(len(src))]
    if k < .2:
        b = bytearray(src.encode("latin-1"))
        for _ in range(rng.choice([1, 1, 2, 5, 20])):
            i = rng.randrange(len(b)); q = rng.randrange(4)
            if q == 0: b[i] = rng.randrange(256)
            elif q == 1: del b[i]
            elif q == 2: b.insert(i, rng.randrange(256))
            else: b[i:i] = b[rng.randrange(len(b)):][:rng.randrange(1, 40)]
            if not b: break
        return bytes(b).decode("latin-1")
    t = tokens_mutated(rng, spell.tokens(src), spell.tokens(other), rng.choice([1, 1, 1, 2, 3, 8]))
    return join(t, rng)
