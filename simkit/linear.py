"""Linearizability of a register history (Wing & Gong search)."""


class Op:
    """start/end are positions in the simulator's event sequence.  end=None:
    never returned."""

    def __init__(self, kind, value, start, end, must):
        self.kind = kind             # 'w' or 'r'
        self.value = value
        self.start, self.end = start, end
        self.must = must             # False: may also have had no effect


def register(ops, initial):
    """Is there an order that explains every completed operation?  (An op
    with must=False can be left out; it cannot take effect after its end.)"""
    ops = [o for o in ops if o.must or o.kind == 'w']
    n = len(ops)
    INF = float('inf')
    ends = [o.end if o.end is not None else INF for o in ops]
    seen = set()
    stack = [(0, initial)]
    full = 0
    for i, o in enumerate(ops):
        if o.must:
            full |= 1 << i
    while stack:
        done, val = stack.pop()
        if done & full == full:
            return True
        if (done, val) in seen:
            continue
        seen.add((done, val))
        # the earliest end among operations that must still be placed
        limit = min(ends[i] for i in range(n)
                    if not done >> i & 1 and ops[i].must)
        for i in range(n):
            if done >> i & 1 or ops[i].start > limit:
                continue
            o = ops[i]
            if o.kind == 'w':
                # an optional write must take effect before its own end:
                # everything that must precede... is ensured by `limit` only
                # for must-ops; check the optional one's end as well
                if not o.must and any(
                        done >> j & 1 and
                        ops[j].start > ends[i] for j in range(n)):
                    continue
                stack.append((done | 1 << i, o.value))
            elif o.value == val:
                stack.append((done | 1 << i, val))
    return False
