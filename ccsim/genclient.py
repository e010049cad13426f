'''Worker side of the generator simulator: builds the world of a run on disk,
hands it to the fork server, and reads back everything observable.'''
import os, json, shutil, struct, subprocess, tempfile, stat, atexit

HERE = os.path.dirname(os.path.abspath(__file__))
VENV = '/opt/venv/bin/python'
PY = VENV if os.path.exists(VENV) else '/usr/bin/python3'


def build_shim(cachedir):
    so = os.path.join(cachedir, 'shim.so')
    src = os.path.join(HERE, 'shim.c')
    if not os.path.exists(so) or os.path.getmtime(so) < os.path.getmtime(src):
        tmp = so + '.%d' % os.getpid()
        subprocess.run(['gcc', '-O1', '-shared', '-fPIC', '-o', tmp, src, '-ldl'], check=True)
        os.chmod(tmp, 0o755)
        os.rename(tmp, so)
    return so


def setup():
    '''Build the seam library once; checks build it in their scratch directory if this is missing.'''
    d = os.path.join(os.path.dirname(HERE), 'build')
    os.makedirs(d, exist_ok=True)
    os.chmod(d, 0o755)
    return build_shim(d)


def server(ctx, hashseed='0', name='gen'):
    '''The worker's fork server for a given PYTHONHASHSEED.'''
    def make(ctx):
        base = os.path.join(ctx.base, name + str(hashseed))
        os.makedirs(base, exist_ok=True)
        os.chmod(base, 0o755)
        try:
            so = setup()
        except Exception:
            so = build_shim(base)
        return GenServer(base, so, hashseed, os.environ.get('CCSIM_REPO', '/repo'))
    return ctx.tool(name + str(hashseed), make)


class GenServer:
    def __init__(self, base, shim, hashseed='0', repo='/repo'):
        self.base = base
        env = {'PATH': '/usr/bin:/bin', 'LD_PRELOAD': shim, 'CCSIM_SHIM': shim,
               'PYTHONHASHSEED': str(hashseed), 'PYTHONDONTWRITEBYTECODE': '1',
               'LC_ALL': 'C.UTF-8', 'CCSIM_REPO': repo, 'PYTHONPYCACHEPREFIX': os.path.join(base, 'pyc')}
        r1, w1 = os.pipe()
        r2, w2 = os.pipe()

        def pre():
            a, b = os.dup(r1), os.dup(w2)
            os.dup2(a, 3)
            os.dup2(b, 4)
        self.p = subprocess.Popen([PY, '-X', 'utf8=0', os.path.join(HERE, 'genserver.py')], env=env,
                                  pass_fds=(3, 4), preexec_fn=pre,
                                  stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL,
                                  stderr=open(os.path.join(base, 'server.err'), 'ab'))
        os.close(r1)
        os.close(w2)
        self.w, self.r = w1, r2
        self.n = 0

    def _rd(self, n):
        b = b''
        while len(b) < n:
            d = os.read(self.r, n - len(b))
            if not d:
                raise RuntimeError('generator server died')
            b += d
        return b

    def request(self, req):
        b = json.dumps(req).encode()
        os.write(self.w, struct.pack('>I', len(b)))
        while b:
            k = os.write(self.w, b)
            b = b[k:]
        n = struct.unpack('>I', self._rd(4))[0]
        return json.loads(self._rd(n))

    @staticmethod
    def discard(res):
        shutil.rmtree(res['W'], ignore_errors=True)
        shutil.rmtree(res['W'] + '.io', ignore_errors=True)

    def close(self):
        try:
            os.close(self.w)
            os.close(self.r)
        except OSError:
            pass
        self.p.kill()
        self.p.wait()

    # -- one run ------------------------------------------------------------
    def run(self, world, argv, plan=(), cwd='w', env=None, stdin=None, stdin_pipe=None,
            mode='cli', extra=None, keep=False, timeout=60, chmods=None):
        """world: {relpath: bytes|str|{'dir':1}|{'x':content}|{'link':target}|{'mode':..,'data':..}}"""
        self.n += 1
        W = os.path.join(self.base, 'r%07d' % self.n)
        io = W + '.io'
        os.makedirs(W)
        os.makedirs(io)
        os.chmod(io, 0o777)
        for d in (cwd, 'tmp', 'bin', 'hold'):
            os.makedirs(os.path.join(W, d), exist_ok=True)
        for p, c in world.items():
            put(os.path.join(W, p), c)
        for root, dirs, files in os.walk(W):
            os.chown(root, 65534, 65534)
            for f in files:
                os.chown(os.path.join(root, f), 65534, 65534, follow_symlinks=False)
        for p, m in (chmods or {}).items():
            os.chmod(os.path.join(W, p), m)
        before = snapshot(W)
        e = {'PATH': W + '/bin:/usr/bin:/bin', 'HOME': W, 'LC_ALL': 'C.UTF-8', 'TMPDIR': W + '/tmp',
             'PYTHONDONTWRITEBYTECODE': '1'}
        e.update({k: v.replace('@W@', W) for k, v in (env or {}).items()})
        req = {'world': W, 'io': io, 'cwd': cwd, 'argv': list(argv), 'env': e, 'mode': mode,
               'plan': ''.join('\t'.join(str(x) for x in r) + '\n' for r in plan), 'timeout': timeout}
        if stdin:
            req['stdin'] = os.path.join(W, stdin)
        if stdin_pipe:
            req['stdin_pipe'] = os.path.join(W, stdin_pipe)
        if extra:
            req.update(extra)
        res = self.request(req)
        res['before'] = before
        res['after'] = snapshot(W)
        for k in ('stdout', 'stderr'):
            try:
                res[k] = open(os.path.join(io, k), 'rb').read().replace(W.encode(), b'@W@')
            except OSError:
                res[k] = b''
        try:
            ops = open(os.path.join(io, 'ops')).read().splitlines()
        except OSError:
            ops = []
        try:
            res['calls'] = int(open(os.path.join(io, 'calls')).read())
        except (OSError, ValueError):
            res['calls'] = None
        res['ops'] = [o.split('\t') for o in ops]
        if not keep:
            shutil.rmtree(W, ignore_errors=True)
            shutil.rmtree(io, ignore_errors=True)
        else:
            res['W'] = W
        return res


def put(p, c):
    os.makedirs(os.path.dirname(p), exist_ok=True)
    if isinstance(c, dict):
        if 'dir' in c:
            os.makedirs(p, exist_ok=True)
        elif 'link' in c:
            os.symlink(c['link'], p)
            return
        else:
            put(p, c.get('x', c.get('data', '')))
            if 'x' in c:
                os.chmod(p, 0o755)
        if 'mode' in c:
            os.chmod(p, c['mode'])
        return
    if isinstance(c, str):
        c = c.encode('utf-8', 'surrogateescape')
    with open(p, 'wb') as fh:
        fh.write(c)


def snapshot(W):
    r = {}
    for root, dirs, files in os.walk(W):
        for d in dirs:
            p = os.path.join(root, d)
            if os.path.islink(p):
                r[os.path.relpath(p, W)] = ('link', os.readlink(p))
            else:
                r[os.path.relpath(p, W)] = ('dir', stat.S_IMODE(os.lstat(p).st_mode))
        for f in files:
            p = os.path.join(root, f)
            st = os.lstat(p)
            if stat.S_ISLNK(st.st_mode):
                r[os.path.relpath(p, W)] = ('link', os.readlink(p))
            elif stat.S_ISREG(st.st_mode):
                r[os.path.relpath(p, W)] = ('file', stat.S_IMODE(st.st_mode), open(p, 'rb').read().replace(W.encode(), b'@W@'))
            else:
                r[os.path.relpath(p, W)] = ('special', st.st_mode)
    return r


def fsdiff(a, b):
    return sorted(k for k in set(a) | set(b) if a.get(k) != b.get(k))


def fired(res):
    '''[(op, action)] of the faults that really happened, and the set of names they hit.'''
    f = []
    names = set()
    for o in res['ops']:
        if len(o) > 4 and o[4]:
            names.add(o[2])
            for a in o[4].split('+'):
                f.append((o[1], a))
    return f, names
