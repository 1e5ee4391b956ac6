def tokens(s):
    i, n = 0, len(s)
    while i < n:
        c = s[i]
        if c.isspace():
            i += 1
        elif c == ';':
            while i < n and s[i] != '\n':
                i += 1
        elif c in '()':
            yield c
            i += 1
        elif c == '"':
            j = i + 1
            while True:
                if s[j] == '"':
                    if j + 1 < n and s[j + 1] == '"':
                        j += 2
                        continue
                    break
                j += 1
            yield s[i:j + 1]
            i = j + 1
        elif c == '|':
            j = s.index('|', i + 1)
            yield s[i:j + 1]
            i = j + 1
        else:
            j = i
            while j < n and not s[j].isspace() and s[j] not in '()";|':
                j += 1
            yield s[i:j]
            i = j


def parse_all(s):
    stack = [[]]
    for t in tokens(s):
        if t == '(':
            stack.append([])
        elif t == ')':
            x = stack.pop()
            stack[-1].append(x)
        else:
            stack[-1].append(t)
    assert len(stack) == 1, "unbalanced"
    return stack[0]


def show(x):
    return x if isinstance(x, str) else "(" + " ".join(show(y) for y in x) + ")"
