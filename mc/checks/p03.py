"""The number of threads follows the history of settings and nested contexts."""
import ctypes
import itertools

BOUNDS = {
    "quick": "every sequence of up to 6 of: set_num_threads of 7 values, entering a new, an earlier made "
             "or an already entered NumThreads of 4 values, leaving the innermost one normally or by an "
             "exception, running a computation; at most 3 open contexts; the setting and the "
             "limit in force in oneTBB after every step; after 4 steps histories that reach the same state are merged",
    "thorough": "as quick with sequences of up to 7 steps and at most 4 open contexts",
}
HANG = 600
SETS = [None, 0, 1, 3, 8, -2]
CTX = [None, 2, 5]


class Boom(Exception):
    pass


def setup(ctx):
    global freud, np, active, EFF, box, pts, want
    import freud
    import numpy as np
    libs = [x.split()[-1] for x in open("/proc/self/maps") if "libtbb.so" in x]
    if not libs:
        raise RuntimeError("oneTBB is not loaded")
    t = ctypes.CDLL(libs[0])
    f = t._ZN3tbb6detail2r127global_control_active_valueEi
    f.restype, f.argtypes = ctypes.c_size_t, [ctypes.c_int]
    active = lambda: int(f(0))  # noqa
    import os
    EFF = {0: int(os.environ.get("VP_HW", 0)) or active()}
    box, pts = freud.box.Box.cube(4), np.array([[0, 0, 0], [1, 0, 0]], np.float32)
    want = box.wrap(pts)


def cases(tier):
    ops = [("set", v) for v in SETS] + [("new", v) for v in CTX] + [
        ("made", 0), ("made", 1), ("again",), ("exit",), ("boom",), ("run",)]
    for a, b in itertools.product(ops, repeat=2):
        yield {"head": [a, b], "depth": 7 if tier == "thorough" else 6,
               "open": 4 if tier == "thorough" else 3}


def norm(v):
    return 0 if v is None or v < 0 else v


def check(case, ctx):
    """Depth-first over all continuations; the history is replayed from the start for each state."""
    ops = [("set", v) for v in SETS] + [("new", v) for v in CTX] + [
        ("made", 0), ("made", 1), ("again",), ("exit",), ("boom",), ("run",)]
    head = [tuple(x) for x in case["head"]]
    # merge: histories with the same model state (setting, open contexts) but different objects
    # are all run; only sequences that cannot be extended are dropped
    seen = set()

    def model(seq):
        """State after seq: (current, stack of (restore, which)), or None if not possible."""
        cur, st = 0, []
        for o in seq:
            if o[0] == "set":
                cur = norm(o[1])
            elif o[0] in ("new", "made", "again"):
                if o[0] == "again" and not st or len(st) >= case["open"]:
                    return None
                n = norm(o[1]) if o[0] == "new" else norm((4, 6)[o[1]]) if o[0] == "made" \
                    else st[-1][1]
                ident = (o[0], o[1]) if o[0] == "made" else st[-1][2] if o[0] == "again" else \
                    ("new", o[1], len(st))
                st.append((cur, n, ident))
                cur = n
            elif o[0] in ("exit", "boom"):
                if not st:
                    return None
                cur = st.pop()[0]
        return cur, tuple(st)

    def replay(seq):
        P = freud.parallel
        P.set_num_threads(1)
        made = [P.NumThreads(4), P.NumThreads(6)]   # made under another setting
        P.set_num_threads(0)
        st = []
        try:
            for k, o in enumerate(seq):
                if o[0] == "set":
                    P.set_num_threads(o[1]) if o[1] is not None else P.set_num_threads()
                elif o[0] == "new":
                    c = P.NumThreads(o[1])
                    c.__enter__()
                    st.append(c)
                elif o[0] == "made":
                    made[o[1]].__enter__()
                    st.append(made[o[1]])
                elif o[0] == "again":
                    st[-1].__enter__()
                    st.append(st[-1])
                elif o[0] == "exit":
                    st.pop().__exit__(None, None, None)
                elif o[0] == "boom":
                    r = st.pop().__exit__(Boom, Boom("x"), None)
                    if r:
                        ctx.fail("after %s: an exception is swallowed" % (seq[:k + 1],))
                else:
                    got = box.wrap(pts)
                    if not np.array_equal(got, want):
                        ctx.fail("after %s: a computation gives another result" % (seq[:k + 1],))
                cur = model(seq[:k + 1])[0]
                g, a = P.get_num_threads(), active()
                ctx.step()
                if g != cur:
                    ctx.fail("after %s: get_num_threads() is %r, expected %d" % (
                        list(seq[:k + 1]), g, cur))
                e = EFF[0] if cur == 0 else cur
                if a != e:
                    ctx.fail("after %s: oneTBB uses up to %d threads, expected %d" % (
                        list(seq[:k + 1]), a, e))
        finally:
            while st:
                st.pop().__exit__(None, None, None)
            P.set_num_threads(0)

    def walk(seq):
        s = model(seq)
        if s is None:
            return
        ctx.state()
        if len(seq) == case["depth"]:
            replay(seq)
            ctx.traces += 1
            return
        key = (len(seq), s, tuple(o for o in seq if o[0] == "made"))
        if len(seq) >= 4 and key in seen and not ctx.thorough:
            # this model state was reached by another history of this length: its
            # continuations were run from there; this history itself is run to here
            replay(seq)
            ctx.traces += 1
            return
        seen.add(key)
        for o in ops:
            walk(seq + [o])

    # real with statements, nested and unwound by an exception through all of them
    P = freud.parallel
    if head[0] == head[1]:
        for a, b, c in itertools.product(CTX + [4], repeat=3):
            P.set_num_threads(7)
            try:
                with P.NumThreads(a):
                    with P.NumThreads(b):
                        P.set_num_threads(3)
                        with P.NumThreads(c):
                            ctx.require(P.get_num_threads() == norm(c), "inner context")
                            raise Boom()
            except Boom:
                pass
            ctx.require(P.get_num_threads() == 7 and active() == 7,
                        "contexts %s unwound by an exception leave %d threads" % (
                            (a, b, c), P.get_num_threads()))
            P.set_num_threads(0)
    if model(head) is not None:
        walk(head)
