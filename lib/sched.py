"""Threads under a drawn schedule.

Every thread runs with a trace function; at each line of the code under test it counts down,
and at zero hands over to the next thread.  One thread runs at a time, so a run is a function
of the jobs and the schedule: it can be shrunk and replayed.  (A thread that waits for a lock
which a waiting one holds lets that one go on after a while.)
"""
import sys
import threading


def run(jobs, schedule, inside):
    """results of the jobs (functions without argument); schedule: lines until a switch
    (cycled), inside(filename): does this file count?  -> (results, switches);
    a result is ("ok", value) or ("error", exception); None: did not end"""
    n = len(jobs)
    turn = [threading.Semaphore(0) for _ in jobs]
    alive = [True] * n
    out = [None] * n
    state = {"left": 0, "k": 0, "switches": 0, "ticks": 0}
    done = threading.Event()

    def budget():
        state["left"] = schedule[state["k"] % len(schedule)]
        state["k"] += 1

    def following(i):
        for d in range(1, n + 1):
            j = (i + d) % n
            if alive[j]:
                return j
        return None

    def wait(i):
        while True:
            before = state["ticks"]
            if turn[i].acquire(timeout=0.5) or (before == state["ticks"] and before):
                return

    def work(i):
        cache = {}

        def tick():
            state["left"] -= 1
            state["ticks"] += 1
            if state["left"] > 0:
                return
            budget()
            j = following(i)
            if j is not None and j != i:
                state["switches"] += 1
                turn[j].release()
                wait(i)

        def local(frame, event, arg):
            if event == "line":
                tick()
            return local

        def trace(frame, event, arg):
            f = frame.f_code.co_filename
            ok = cache.get(f)
            if ok is None:
                ok = cache[f] = inside(f)
            return local if ok else None

        wait(i)
        sys.settrace(trace)
        try:
            out[i] = ("ok", jobs[i]())
        except BaseException as e:  # noqa: BLE001  (handed to the caller)
            out[i] = ("error", e)
        finally:
            sys.settrace(None)
            alive[i] = False
            j = following(i)
            if j is None:
                done.set()
            else:
                turn[j].release()

    ts = [threading.Thread(target=work, args=(i,), daemon=True) for i in range(n)]
    for t in ts:
        t.start()
    budget()
    turn[0].release()
    if not done.wait(60):
        return None, 0
    for t in ts:
        t.join()
    return out, state["switches"]
