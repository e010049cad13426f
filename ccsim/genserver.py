'''Fork server for simulated runs of the real /repo code.

Runs under the LD_PRELOAD seam (shim.c).  For each request it forks; the child
drops privileges, enters the run's world directory, arms the seam with the
fault plan and executes either the real crazy-complete script (mode "cli") or a
library scenario (mode "api", see apiscn.py).  The interpreter itself finishes
the child, so exit status, buffered-output flushing and tracebacks are real.
'''
import sys, os, json, ctypes, signal, struct, resource

REPO = os.environ.get('CCSIM_REPO', '/repo')
sys.dont_write_bytecode = True
sys.path.insert(0, REPO)


def preload():
    import argparse, yaml, json, traceback, runpy, shlex, subprocess, tempfile, importlib, copy  # noqa
    import pkgutil, threading, random, hashlib  # noqa
    import encodings.utf_8, encodings.ascii, encodings.latin_1  # noqa
    import crazy_complete
    for m in pkgutil.iter_modules(crazy_complete.__path__):
        try:
            importlib.import_module('crazy_complete.' + m.name)
        except Exception:  # reported by the run that needs it
            pass


def rd(n):
    b = b''
    while len(b) < n:
        d = os.read(3, n - len(b))
        if not d:
            os._exit(0)
        b += d
    return b


def wait_timeout(pid, secs):
    import time
    t = time.monotonic() + secs
    delay = 0.0005
    while True:
        p, st = os.waitpid(pid, os.WNOHANG)
        if p:
            return st
        if time.monotonic() > t:
            try:
                os.killpg(pid, signal.SIGKILL)
            except OSError:
                pass
            os.kill(pid, signal.SIGKILL)
            os.waitpid(pid, 0)
            return None
        time.sleep(delay)
        delay = min(delay * 1.3, 0.01)


def child_setup(req, shim):
    os.setpgid(0, 0)
    W = req['world']
    io = req['io']
    os.close(3)
    os.close(4)
    fd = os.open(req.get('stdin') or '/dev/null', os.O_RDONLY)
    os.dup2(fd, 0)
    os.close(fd)
    for n, name in ((1, 'stdout'), (2, 'stderr')):
        fd = os.open(os.path.join(io, name), os.O_WRONLY | os.O_CREAT | os.O_TRUNC | os.O_APPEND, 0o666)
        os.dup2(fd, n)
        os.close(fd)
    fd = os.open(os.path.join(io, 'ops'), os.O_WRONLY | os.O_CREAT | os.O_TRUNC | os.O_APPEND, 0o666)
    os.dup2(fd, 9)
    if fd != 9:
        os.close(fd)
    os.set_inheritable(9, False)
    os.umask(0o022)
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    if os.getuid() == 0:
        os.setgroups([])
        os.setgid(65534)
        os.setuid(65534)
    if req.get('stdin_pipe') is not None:
        # created after dropping privileges so that /dev/stdin can be reopened
        r, w = os.pipe()
        import fcntl
        data = open(req['stdin_pipe'], 'rb').read()
        fcntl.fcntl(w, 1031, max(65536, min(1 << 20, len(data) + 4096)))
        os.write(w, data)
        os.close(w)
        os.dup2(r, 0)
        os.close(r)
    os.chdir(os.path.join(W, req['cwd']))
    os.environ.clear()
    os.environ.update(req['env'])
    signal.signal(signal.SIGINT, signal.default_int_handler)
    # sys.stdin/out/err still wrap fds 0..2
    if req.get('sig_at_call'):
        n, sig = req['sig_at_call']
        _arm_call_signal(n, {'int': signal.SIGINT, 'term': signal.SIGTERM, 'kill': signal.SIGKILL}[sig])
    elif req.get('count_calls'):
        _count_calls(os.path.join(io, 'calls'))
    shim.shim_arm(W.encode(), os.path.join(W, req['cwd']).encode(), req['plan'].encode(), 9)


def _arm_call_signal(n, sig):
    '''Deliver sig to ourselves at the n-th Python function call.'''
    left = [n]

    def prof(frame, event, arg):
        if event == 'call':
            left[0] -= 1
            if left[0] == 0:
                sys.setprofile(None)
                if sig == signal.SIGTERM:
                    signal.signal(sig, signal.SIG_DFL)
                os.kill(os.getpid(), sig)
    sys.setprofile(prof)


def _count_calls(path):
    import atexit
    n = [0]

    def prof(frame, event, arg):
        if event == 'call':
            n[0] += 1

    def done():
        sys.setprofile(None)
        fd = os.open(path, os.O_WRONLY | os.O_CREAT, 0o600)
        os.write(fd, b'%d' % n[0])
        os.close(fd)
    fd = os.open(path, os.O_WRONLY | os.O_CREAT, 0o666)
    os.close(fd)
    atexit.register(done)
    sys.setprofile(prof)


def serve():
    shim = ctypes.CDLL(os.environ['CCSIM_SHIM'])
    preload()
    real_preload = os.environ.pop('LD_PRELOAD', None)
    while True:
        n = struct.unpack('>I', rd(4))[0]
        req = json.loads(rd(n))
        pid = os.fork()
        if pid == 0:
            return req, shim
        st = wait_timeout(pid, req.get('timeout', 60))
        if st is None:
            out = {'status': 'hang'}
        elif os.WIFSIGNALED(st):
            out = {'status': 'signal:%d' % os.WTERMSIG(st)}
        else:
            out = {'status': 'exit:%d' % os.WEXITSTATUS(st)}
        b = json.dumps(out).encode()
        os.write(4, struct.pack('>I', len(b)) + b)


req, shim = serve()
# ---- from here on we are the forked child, at interpreter top level ---------
if req['mode'] == 'cli':
    import runpy
    sys.argv = [os.path.join(REPO, 'crazy-complete')] + req['argv']
    sys.path[0] = REPO
    child_setup(req, shim)
    runpy.run_path(sys.argv[0], run_name='__main__')
else:
    import importlib
    sys.path.insert(1, os.path.dirname(os.path.abspath(__file__)))
    scn = importlib.import_module('apiscn')
    # the package is imported before the seam is armed: module loading is not part of the run
    import crazy_complete.application, crazy_complete.bash, crazy_complete.fish, crazy_complete.zsh  # noqa
    child_setup(req, shim)
    scn.main(req)
