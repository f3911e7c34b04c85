"""Worker processes of the verifier.  Each is started afresh (never forked from a process with threads), gets one
request per line (JSON) on its standard input and answers each with one line on its standard output."""
import json, os, queue, select, subprocess, sys, threading, time

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class Worker:
    def __init__(self, factor):
        self.p = subprocess.Popen([sys.executable, '-m', 'kvproof.pool', str(factor)], cwd=V, stdin=subprocess.PIPE, stdout=subprocess.PIPE,
                                  stderr=subprocess.DEVNULL, bufsize=0)
        self.buf = b''
        self.done = 0

    def ask(self, req, timeout):
        """answer, or None when the worker died or did not answer in time (it is ended then)"""
        end = time.time() + timeout
        try:
            self.p.stdin.write(json.dumps(req).encode() + b'\n')
            while b'\n' not in self.buf:
                left = end - time.time()
                if left <= 0 or not select.select([self.p.stdout], [], [], left)[0]:
                    raise OSError('no answer')
                d = os.read(self.p.stdout.fileno(), 1 << 16)
                if not d:
                    raise OSError('worker ended')
                self.buf += d
            line, self.buf = self.buf.split(b'\n', 1)
            self.done += 1
            return json.loads(line)
        except (OSError, ValueError):
            self.close()
            return None

    def close(self):
        try:
            self.p.kill()
            self.p.wait(10)
            self.p.stdin.close()
            self.p.stdout.close()
        except (OSError, subprocess.SubprocessError):
            pass


class Pool:
    """run(requests): callback(request, answer) in the calling thread may add further requests"""
    def __init__(self, procs, factor=1, per_worker=8, until=None):
        self.procs, self.factor, self.per, self.until = procs, factor, per_worker, until

    def run(self, requests, timeout, callback):
        todo, done = queue.Queue(), queue.Queue()
        open_ = [0]

        def put(r):
            open_[0] += 1
            todo.put(r)

        def serve():
            w = None
            while True:
                r = todo.get()
                if r is None:
                    break
                a, limit = None, timeout
                if self.until is not None:   # nothing runs past this moment
                    left = self.until - time.time()
                    if left < 3:
                        done.put((r, None))
                        continue
                    limit = min(timeout, left)
                    if 'deadline' in r:
                        r['deadline'] = min(r['deadline'], left - 1)
                for attempt in (0, 1):       # a worker that dies is replaced once
                    if w is None or w.done >= self.per:
                        if w:
                            w.close()
                        w = Worker(self.factor)
                    t0 = time.time()
                    a = w.ask(r, limit)
                    if a is not None:
                        break
                    w = None
                    if time.time() - t0 > limit - 1:
                        break
                done.put((r, a))
            if w:
                w.close()
        ts = [threading.Thread(target=serve, daemon=True) for _ in range(self.procs)]
        for r in requests:
            put(r)
        for t in ts:
            t.start()
        while open_[0]:
            r, a = done.get()
            open_[0] -= 1
            for x in callback(r, a) or ():
                put(x)
        for _ in ts:
            todo.put(None)
        for t in ts:
            t.join(15)


def lemmas():
    from . import theory, exch
    return [(n, bool(ok), round(t, 4)) for n, ok, t in theory.prove_lemmas() + exch.bit_checks()]


def main():
    factor = float(sys.argv[1])
    out = os.dup(1)
    os.dup2(2, 1)
    from . import engine
    engine.FACTOR = int(factor)
    from . import cast, theory
    from .verify import FnVerifier
    from .contracts import CONTRACTS
    units = bg = None
    for line in sys.stdin.buffer:
        req = json.loads(line)
        try:
            if req['fn'] is None:
                r = dict(lemmas=lemmas())
            else:
                if units is None:
                    units, bg = cast.load_all(), theory.background()
                r = FnVerifier(units, CONTRACTS, bg, deadline=time.time() + req['deadline']).verify(req['fn'])
                for f in r['failures']:
                    f['msg'] = str(f['msg'])[:1500]
                    f['trace'] = [str(x)[:300] for x in f['trace']]
        except Exception as e:
            r = dict(error='%s: %s' % (type(e).__name__, str(e)[:1500]))
        data = json.dumps(r, default=str).encode() + b'\n'
        while data:
            data = data[os.write(out, data):]


if __name__ == '__main__':
    main()
