"""Behaviours of a model, from TLC's dump of its complete state graph: walks from initial
states that together take every transition."""
import re
from collections import deque

NODE = re.compile(r'^(-?\d+) \[label="(.*?)"(,style = filled)?(?:,tooltip=.*)?\];?$')
EDGE = re.compile(r'^(-?\d+) -> (-?\d+)')


def value(text):
    """a TLA+ record / tuple / number / string, as printed by TLC"""
    tok = re.findall(r'\|->|<<|>>|\[|\]|,|-?\d+|"[^"]*"|\w+', text)
    pos = 0

    def parse():
        nonlocal pos
        t = tok[pos]
        pos += 1
        if t == '[':
            d = {}
            while tok[pos] != ']':
                k = tok[pos]
                pos += 2
                d[k] = parse()
                if tok[pos] == ',':
                    pos += 1
            pos += 1
            return d
        if t == '<<':
            l = []
            while tok[pos] != '>>':
                l.append(parse())
                if tok[pos] == ',':
                    pos += 1
            pos += 1
            return l
        if t[0] == '"':
            return t[1:-1]
        return int(t) if re.match(r'-?\d+$', t) else t
    return parse()


def load(path, drop=()):
    """-> (initial [(projection, call)], edges {projection: [(call, projection)]})"""
    proj, call, initial, edges = {}, {}, [], []
    parsed = {}
    for line in open(path):
        line = line.rstrip('\n')
        m = EDGE.match(line)
        if m:
            edges.append(m.groups())
            continue
        m = NODE.match(line)
        if not m:
            continue
        nid, label, filled = m.groups()
        parts = label.replace('\\\\', '\\').split('\\n/\\ ')
        last, rest = None, []
        for p in parts:
            p = p.lstrip('/\\ ')
            name, _, val = p.partition(' = ')
            if name.endswith('_last'):
                last = val.replace('\\n', ' ').replace('\\"', '"')
            elif name.rsplit('_', 1)[1] not in drop:
                rest.append(p)
        key = hash('\n'.join(rest))
        if last not in parsed:
            parsed[last] = value(last)
        first = nid not in proj
        proj[nid], call[nid] = key, last
        if filled and first:
            initial.append((key, last))
    out = {}
    for a, b in edges:
        out.setdefault(proj[a], set()).add((call[b], proj[b]))
    out = {k: sorted(v) for k, v in out.items()}
    return initial, out, parsed


def walks(path, limit=150, drop=()):
    """Lists of calls; every transition of the model is in at least one of them."""
    initial, out, parsed = load(path, drop)
    todo = {k: list(v) for k, v in out.items()}
    for v in todo.values():
        v.reverse()
    total = sum(len(v) for v in todo.values())
    res = []
    starts = deque(initial)
    dead = set()
    while any(todo.values()):
        if not starts:
            break
        node, new = starts[0]
        walk = [parsed[new]]
        progress = False
        while True:
            if todo.get(node):
                c, nxt = todo[node].pop()
                walk.append(parsed[c])
                node = nxt
                progress = True
                if len(walk) > limit and not todo.get(node):
                    break
                continue
            # nearest node with a transition not yet taken
            back = {node: None}
            q = deque([node])
            goal = None
            while q:
                u = q.popleft()
                if todo.get(u):
                    goal = u
                    break
                for c, w in out.get(u, ()):
                    if w not in back:
                        back[w] = (u, c)
                        q.append(w)
            if goal is None:
                break
            path_ = []
            while back[goal]:
                u, c = back[goal]
                path_.append((c, goal))
                goal = u
            for c, w in reversed(path_):
                walk.append(parsed[c])
                node = w
        if progress:
            res.append(walk)
            starts.rotate(-1)
        else:
            starts.popleft()
    left = sum(len(v) for v in todo.values())
    return res, total - left, total
