SUMMARY = "Real threading.c signals: every schedule of setters and waiters within the preemption bound, with wake-ups without a cause. Trusted: the symbolic executor, the model of mutexes and condition variables."
ASSUMPTIONS = ["Sequentially consistent memory", "A signal is set when created, as on Windows", "A set while already set is not counted again"]
def O(name, bounds, waiters, waits, setters, sets, extra=(), **kw):
    return dict(name=name, engine="symx", threads=True, globals=True, preempt=3, harness="signal.c", jobs=2, bounds=bounds + ", every schedule with up to 3 preemptions",
        defs=["WAITERS=%d" % waiters, "WAITS=%d" % waits, "SETTERS=%d" % setters, "SETS=%d" % sets] + list(extra), **kw)
OBLIGATIONS = [
 O("one", "one waiter and one setter, 2 wake-ups without a cause", 1, 1, 1, 1, ["SPURIOUS=2"], thorough=dict(preempt=6)),
 O("hand over", "two waiters of one wait each and a setter of two, the second once the first released a wait", 2, 1, 1, 2, ["HAND_OVER"], thorough=dict(preempt=5)),
 O("repeat", "one waiter of three waits and a setter of three, each once the last released a wait, a wake-up without a cause", 1, 3, 1, 3, ["HAND_OVER", "SPURIOUS=1"], thorough=dict(preempt=5)),
 O("setters", "one waiter and two setters", 1, 1, 2, 1, thorough=dict(preempt=5)),
 O("before", "set before the wait", 1, 1, 1, 0, ["BEFORE"], thorough=dict(preempt=6)),
]
