"""Independent pieces of a check (a proof, a search) run by forked processes."""
import os, pickle, select, signal, sys, time, traceback


def run(units, workers, deadline):
    """units: [(key, thunk)];  yields (key, result or None, error text or None)"""
    todo, live, out = list(units), {}, []
    while todo or live:
        while todo and len(live) < workers:
            key, f = todo.pop(0)
            r, w = os.pipe()
            sys.stdout.flush()
            sys.stderr.flush()
            pid = os.fork()
            if pid == 0:
                code = 0
                try:
                    os.close(r)
                    own = os.path.abspath("unit%d" % os.getpid())      # files written by contracts are not shared between units
                    os.mkdir(own)
                    os.chdir(own)
                    try:
                        data = pickle.dumps((f(), None))
                    except BaseException:
                        data = pickle.dumps((None, traceback.format_exc()[-3000:]))
                    with os.fdopen(w, "wb") as h:
                        h.write(data)
                except BaseException:
                    code = 1
                finally:
                    os._exit(code)
            os.close(w)
            live[r] = (pid, key, [], time.time())
        ready = select.select(list(live), [], [], 1.0)[0]
        for fd in ready:
            b = os.read(fd, 1 << 20)
            if b:
                live[fd][2].append(b)
                continue
            pid, key, parts, _ = live.pop(fd)
            os.close(fd)
            os.waitpid(pid, 0)
            try:
                res, err = pickle.loads(b"".join(parts))
            except Exception:
                res, err = None, "the process ended early"
            yield key, res, err
        if time.time() > deadline():
            for fd, (pid, key, parts, _) in list(live.items()):
                os.kill(pid, signal.SIGKILL)
                os.waitpid(pid, 0)
                os.close(fd)
                yield key, None, "time budget exhausted"
            live.clear()
            for key, f in todo:
                yield key, None, "time budget exhausted"
            todo = []
