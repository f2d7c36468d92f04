"""Programs that make every transition of an exhaustively explored machine.

TLC explores MC_Machine and prints every transition <<before, call, after>> of
the two working registers.  A walk that makes each of them at least once is cut
into programs, which the code executes: the values a call meets are then those
that the calls before it left, in whatever representation.
"""
import json, random, re
from collections import deque

EDGE = re.compile(r'<<"EDGE", "(.*?)", "(.*?)", "(.*?)">>')
NUMBER = {"elt", "scalar", "powI"}  # calls with a number as their second argument


def edges(text):
    """state -> {call: [states after]}"""
    g, known = {}, {}

    def norm(t):
        if t not in known:
            known[t] = json.dumps(json.loads(t.replace('\\"', '"')), sort_keys=True)
        return known[t]
    for b, c, a in EDGE.findall(text):
        g.setdefault(norm(b), {}).setdefault(norm(c), set()).add(norm(a))
    return {b: {c: sorted(a) for c, a in sorted(cs.items())} for b, cs in g.items()}


def call(c):
    i = json.loads(c)
    if i["o"] in NUMBER:
        i["a"][1] = str(i["a"][1])
    return i


def walk(g, start, seed, limit):
    """Walks from start, again and again, until every call was made in every state."""
    rnd = random.Random(seed)
    todo = {s: sorted(cs) for s, cs in g.items()}
    for cs in todo.values():
        rnd.shuffle(cs)
    near = {s: {after[0]: c for c, after in cs.items() if len(after) == 1 and after[0] != s} for s, cs in g.items()}
    left = sum(len(cs) for cs in todo.values())
    total = left
    units = []
    while left:
        s, code = start, []
        while left and len(code) < limit:
            if todo[s]:
                c = todo[s].pop()
                left -= 1
            else:
                # the nearest state with something to do
                seen, q, path = {s: None}, deque([s]), None
                while q and path is None:
                    x = q.popleft()
                    for y, c in near[x].items():
                        if y not in seen:
                            seen[y] = (x, c)
                            if todo[y]:
                                path = y
                                break
                            q.append(y)
                if path is None:
                    break
                steps = []
                while seen[path]:
                    path, c = seen[path]
                    steps.append(c)
                c = steps[-1]
            code.append(call(c))
            after = g[s][c]
            s = after[0]
            if len(after) > 1:
                # the root the code returns is not known: overwrite it
                break
        if not code:
            break
        units.append(code)
    return units, total


def tour(text, prefix, seed, limit=1500):
    head = json.loads(re.search(r'<<"HEAD", "(.*)">>', text).group(1).replace('\\"', '"'))
    g = edges(text)
    start = next(s for s in g if s.count("none") == 2)
    codes, total = walk(g, start, seed, limit)
    units = []
    # short walks (cut at a root) are put together
    cur = []
    for c in codes + [None]:
        if c is None or (cur and len(cur) + len(c) + 2 > limit):
            units.append({"id": "%s/%d" % (prefix, len(units) + 1), "n": 6, "code": head + cur})
            cur = []
        if c is not None:
            cur += ([{"o": "drop", "a": [4], "d": 0}, {"o": "drop", "a": [5], "d": 0}] if cur else []) + c
    return units, total, len(g)
