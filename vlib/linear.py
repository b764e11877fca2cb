"""Online-style linearizability check of a recorded history: configurations are (state, completed-but-not-returned operations)."""


class TooHard(Exception):
    pass


def check(ops, initial, step, reads=(), limit=60000, budget=6_000_000):
    """ops: list of (start, end, op); step(state, op) -> new state or None when the recorded result is impossible.
    States are hashable.
    Operations named in `reads` never change the state, so taking them as soon as they fit loses no order. Returns (None, final states, stats) or (index into ops of the operation that cannot be explained, states before, stats)."""
    ev = []
    for i, (a, b, _) in enumerate(ops):
        ev.append((a, 0, i))
        ev.append((b, 1, i))
    # a call at the same instant as a return is concurrent with it
    ev.sort(key=lambda e: (e[0], e[1]))
    configs = {(initial, frozenset())}
    pending = set()
    work = maxc = maxp = 0
    isread = [o[2][0] in reads for o in ops]

    def settle(st, lin):
        more = [j for j in pending if isread[j] and j not in lin and step(st, ops[j][2]) is not None]
        return (st, lin | frozenset(more)) if more else (st, lin)
    for _, kind, i in ev:
        if kind == 0:
            pending.add(i)
            maxp = max(maxp, len(pending))
            continue
        configs = {settle(*x) for x in configs}
        done, seen = set(), set(configs)
        todo = list(configs)
        while todo:
            st, lin = todo.pop()
            if i in lin:
                done.add((st, lin - {i}))
                continue
            for j in pending:
                if j in lin or isread[j]:
                    continue
                work += 1
                if work > budget or len(seen) > limit:
                    raise TooHard()
                ns = step(st, ops[j][2])
                if ns is None:
                    continue
                cfg = settle(ns, lin | {j})
                if cfg not in seen:
                    seen.add(cfg)
                    todo.append(cfg)
        pending.discard(i)
        if not done:
            return i, {s for s, _ in configs}, {'work': work, 'configs': maxc, 'pending': maxp}
        maxc = max(maxc, len(done))
        configs = done
    return None, {s for s, l in configs}, {'work': work, 'configs': maxc, 'pending': maxp}
