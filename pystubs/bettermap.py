"""One process for every item, several at a time, results in order."""
import os
import pickle


def map_per_process(f, inputs, serialization_items=None, parallelism=4):
    inputs = list(inputs)
    running, results, k = {}, {}, 0
    for i in range(len(inputs)):
        while k < len(inputs) and len(running) < parallelism:
            r, w = os.pipe()
            pid = os.fork()
            if pid == 0:
                code = 1
                try:
                    os.close(r)
                    ans = pickle.dumps(f(inputs[k]))
                    with os.fdopen(w, "wb") as g:
                        g.write(ans)
                    code = 0
                except BaseException:
                    import traceback
                    traceback.print_exc()
                finally:
                    os._exit(code)
            os.close(w)
            running[k] = (pid, r)
            k += 1
        pid, r = running.pop(i)
        with os.fdopen(r, "rb") as g:
            data = g.read()
        if os.waitpid(pid, 0)[1] != 0:
            for pid, r in running.values():
                os.close(r)
                os.waitpid(pid, 0)
            raise RuntimeError("a process failed")
        yield pickle.loads(data)


def ordered_map_per_process(f, inputs, **kw):
    return map_per_process(f, inputs, **kw)


def map_in_chunks(f, inputs, **kw):
    return map_per_process(f, inputs)
