import threading, traceback


def parallel(c, items, fn, workers=8, alive=lambda: True, max_bad=8):
    """Runs fn(item) over items in threads. fn returns True when it found a violation (stops after max_bad).
    An exception in fn is a harness problem, unless the process under test is gone (its exit is judged elsewhere)."""
    it = iter(items)
    lock = threading.Lock()
    bad, errs = [0], []

    def work():
        while bad[0] < max_bad and not errs:
            with lock:
                x = next(it, None)
            if x is None:
                return
            try:
                if fn(x):
                    with lock:
                        bad[0] += 1
            except Exception:
                if not alive():
                    return
                errs.append(traceback.format_exc())
    ts = [threading.Thread(target=work) for _ in range(workers)]
    [t.start() for t in ts]
    [t.join() for t in ts]
    if errs and alive():
        c.problem('worker exception: ' + errs[0][-1500:])
    return bad[0]
