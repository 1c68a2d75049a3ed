"""
Turns the transitions that a model printed (records p, e, q: state,
operation, next state) into histories: sequences of operations, all
starting at the initial state, which together take every transition.
"""
import collections, json


def _key(x):
    return json.dumps(x, sort_keys=True)


def tours(edges, init, maxlen=150, rng=None):
    out = collections.defaultdict(list)      # state -> [(op, next)]
    for e in edges:
        out[_key(e['p'])].append((e['e'], _key(e['q'])))
    for k in out:                            # TLC prints in any order
        out[k].sort(key=lambda x: (_key(x[0]), x[1]))
        if rng:
            rng.shuffle(out[k])
    todo = {k: list(v) for k, v in out.items()}
    start = _key(init)
    left = sum(map(len, todo.values()))
    result = []
    while left:
        cur, hist = start, []
        while len(hist) < maxlen and left:
            if todo.get(cur):
                op, nxt = todo[cur].pop()
                left -= 1
                hist.append(op)
                cur = nxt
                continue
            # the nearest state with something left to do
            prev, queue, found = {cur: None}, collections.deque([cur]), None
            while queue:
                x = queue.popleft()
                if todo.get(x):
                    found = x
                    break
                for op, y in out.get(x, ()):
                    if y not in prev:
                        prev[y] = (x, op)
                        queue.append(y)
            if found is None:
                break
            route = []
            while prev[found] is not None:
                found, op = prev[found]
                route.append(op)
            route.reverse()
            hist.extend(route)
            for op in route:
                cur = next(y for o, y in out[cur] if o is op)
        if not hist:
            break                            # unreachable remainder
        result.append(hist)
    return result, left
