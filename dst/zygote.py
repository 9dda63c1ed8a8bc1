"""
Other processes: servers that have just imported symfit (each with its own string-hash
seed) and answer every request in a fresh fork, so that each answer comes from a process
without any history. Requests and answers are JSON.

  zygote.py SOCKET       run a server (PYTHONHASHSEED is set by the parent)
"""
import os
import sys
import json
import time
import base64
import socket
import struct
import importlib
import traceback

SEEDS = ('1', '7', '4242')


def _send(s, obj):
    data = json.dumps(obj).encode()
    s.sendall(struct.pack('>I', len(data)) + data)


def _recv(s):
    def need(n):
        buf = b''
        while len(buf) < n:
            b = s.recv(n - len(buf))
            if not b:
                raise EOFError('connection closed')
            buf += b
        return buf
    return json.loads(need(struct.unpack('>I', need(4))[0]))


def b64(b):
    return base64.b64encode(b).decode()


def unb64(s):
    return base64.b64decode(s)


# --------------------------------------------------------------------- client
class Pool(object):
    def __init__(self, seeds=SEEDS):
        import subprocess
        import tempfile
        self.dir = tempfile.mkdtemp(prefix='dst-zyg-')
        self.procs, self.paths = [], []
        for k, s in enumerate(seeds):
            path = os.path.join(self.dir, 's%d' % k)
            env = dict(os.environ, PYTHONHASHSEED=s)
            p = subprocess.Popen([sys.executable, os.path.abspath(__file__), path], env=env,
                                 stdin=subprocess.PIPE, stdout=subprocess.DEVNULL,
                                 stderr=None if os.environ.get('DST_LOUD') else subprocess.DEVNULL)
            self.procs.append(p)
            self.paths.append(path)
        end = time.time() + 120
        for k, path in enumerate(self.paths):
            while not os.path.exists(path + '.ready'):
                if self.procs[k].poll() is not None or time.time() > end:
                    raise RuntimeError('a server did not start')
                time.sleep(0.05)

    def call(self, k, target, payload, timeout=150):
        """Run 'module:function'(payload) in a fresh process of server k. Returns its value;
        raises Remote if it raised there."""
        import boot
        s = socket.socket(socket.AF_UNIX)
        s.settimeout(timeout)
        try:
            s.connect(self.paths[k % len(self.paths)])
            _send(s, dict(target=target, payload=payload))
            ans = _recv(s)
        except (OSError, EOFError) as e:
            raise boot.HarnessError('server %d: %r' % (k, e))
        finally:
            s.close()
        if 'error' in ans:
            raise Remote(ans['error'], ans['trace'])
        return ans['value']

    def session(self, k, timeout=150):
        return Session(self.paths[k % len(self.paths)], timeout)

    def close(self):
        for p in self.procs:
            try:
                p.kill()
                p.wait()
            except Exception:
                pass
        import shutil
        shutil.rmtree(self.dir, ignore_errors=True)


class Session(object):
    """One process of a server that answers several requests, one after another."""
    def __init__(self, path, timeout):
        import boot
        self.err = boot.HarnessError
        self.s = socket.socket(socket.AF_UNIX)
        self.s.settimeout(timeout)
        try:
            self.s.connect(path)
        except OSError as e:
            raise self.err('session: %r' % e)

    def call(self, target, payload):
        """Value, or raises Remote; raises Died if the process ended instead of answering."""
        try:
            _send(self.s, dict(target=target, payload=payload, more=True))
            ans = _recv(self.s)
        except socket.timeout as e:
            raise self.err('session: %r' % e)
        except (OSError, EOFError):
            raise Died()
        if 'error' in ans:
            raise Remote(ans['error'], ans['trace'])
        return ans['value']

    def close(self):
        self.s.close()


class Died(Exception):
    """The process ended before it answered."""


class Remote(Exception):
    """The function raised in the other process."""
    def __init__(self, cls, trace):
        super(Remote, self).__init__(cls)
        self.cls, self.trace = cls, trace


# --------------------------------------------------------------------- server
def serve(path):
    import signal
    import threading  # noqa: F401
    sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
    import boot  # noqa: F401
    import engine
    import gen, jobs, ops, faults, peer, ref, sched  # noqa: F401,E401
    import checks.c09, checks.c10, checks.c11  # noqa: F401,E401
    import select
    srv = socket.socket(socket.AF_UNIX)
    srv.bind(path)
    srv.listen(64)
    open(path + '.ready', 'w').close()
    while True:
        rs, _, _ = select.select([srv, sys.stdin], [], [], 1.0)
        while True:
            try:
                if os.waitpid(-1, os.WNOHANG)[0] == 0:
                    break
            except ChildProcessError:
                break
        if sys.stdin in rs and not os.read(0, 1):
            return                                # the parent is gone
        if srv not in rs:
            continue
        c, _ = srv.accept()
        if os.fork() == 0:
            srv.close()
            signal.alarm(140)
            try:
                while True:
                    req = _recv(c)
                    try:
                        mod, fn = req['target'].split(':')
                        ans = dict(value=getattr(importlib.import_module(mod), fn)(req['payload']))
                        ans = json.loads(json.dumps(ans, default=engine._jsonable))
                    except BaseException as e:
                        ans = dict(error=type(e).__name__ + ': ' + str(e)[:300],
                                   trace=traceback.format_exc()[-3000:])
                    _send(c, ans)
                    if not req.get('more'):
                        break
            except EOFError:
                pass
            finally:
                os._exit(0)
        c.close()


if __name__ == '__main__':
    serve(sys.argv[1])
