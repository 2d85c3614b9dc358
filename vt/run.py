"""Drive the real command line (tzcompiler.py as __main__) in forked children
and record everything observable about the execution."""
import io
import json
import multiprocessing
import os
import runpy
import shutil
import signal
import sys
import tempfile
import time
import traceback

REPO = os.environ.get('VT_REPO', '/repo')
SRC = os.path.join(REPO, 'src')
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SCRIPT = os.path.join(SRC, 'acetimetools', 'tzcompiler.py')
STUBS = os.path.join(VERIF, 'stubs')


def boot():
    sys.dont_write_bytecode = True
    for p in (STUBS, SRC):
        if p not in sys.path:
            sys.path.insert(0, p)
    import logging
    logging.getLogger().handlers[:] = []
    import acetimetools.tzcompiler as t  # noqa: F401  (warms the import cache)
    f = os.path.realpath(t.__file__)
    if not f.startswith(os.path.realpath(SRC) + os.sep):
        raise RuntimeError('code under test loaded from %s' % f)


class Scratch:
    def __init__(self, tag='vt'):
        base = '/dev/shm' if os.path.isdir('/dev/shm') and os.access('/dev/shm', os.W_OK) else None
        try:
            st = os.statvfs('/dev/shm')
            if st.f_bavail * st.f_frsize < 2 << 30:
                base = None
        except OSError:
            base = None
        self.path = tempfile.mkdtemp(prefix=tag + '.', dir=base)

    def __enter__(self):
        return self.path

    def __exit__(self, *a):
        shutil.rmtree(self.path, ignore_errors=True)


class Obs:
    """One observed execution."""
    __slots__ = ('argv', 'ok', 'kind', 'etype', 'emsg', 'tb', 'log', 'files', 'out_dir', 'wall')

    def __init__(self, **kw):
        for k in self.__slots__:
            setattr(self, k, kw.get(k))

    def read(self, name):
        with open(os.path.join(self.out_dir, name), encoding='utf-8') as f:
            return f.read()

    def brief(self):
        return {'argv': self.argv, 'ok': self.ok, 'etype': self.etype, 'emsg': self.emsg}


def _child(argv, out_dir, cwd, log_path, status_path, env):
    status = {'kind': 'crash'}
    try:
        fd = os.open(log_path, os.O_WRONLY | os.O_CREAT | os.O_TRUNC, 0o600)
        os.dup2(fd, 1)
        os.dup2(fd, 2)
        sys.stdout = io.TextIOWrapper(os.fdopen(1, 'wb', 0, closefd=False), write_through=True)
        sys.stderr = sys.stdout
        import logging
        logging.getLogger().handlers[:] = []
        os.environ.update(env or {})
        os.chdir(cwd or out_dir)
        sys.argv = [SCRIPT] + argv
        try:
            runpy.run_path(SCRIPT, run_name='__main__')
            status = {'kind': 'ok'}
        except SystemExit as e:
            c = e.code
            status = {'kind': 'ok' if c in (None, 0) else 'exit',
                      'etype': 'SystemExit', 'emsg': str(c)}
        except BaseException as e:
            status = {'kind': 'exception', 'etype': type(e).__name__,
                      'emsg': str(e)[:2000], 'tb': traceback.format_exc()[-4000:]}
        sys.stdout.flush()
    finally:
        try:
            with open(status_path, 'w') as f:
                json.dump(status, f)
        finally:
            os._exit(0)


def tree(d):
    """The files below d, as relative paths."""
    return [os.path.relpath(os.path.join(p, f), d) for p, _, fs in os.walk(d) for f in fs]


def run_cli(argv, out_dir, timeout=600, env=None, cwd=None):
    """Fork, run the command line, wait.  Returns Obs; kind 'timeout' and
    'crash' are *inconclusive*, never a verdict."""
    os.makedirs(out_dir, exist_ok=True)
    side = out_dir.rstrip('/') + '.side'
    os.makedirs(side, exist_ok=True)
    log_path = os.path.join(side, 'log')
    status_path = os.path.join(side, 'status')
    if os.path.exists(status_path):
        os.unlink(status_path)
    before = set(tree(out_dir))
    t0 = time.time()
    sys.stdout.flush()
    sys.stderr.flush()
    pid = os.fork()
    if pid == 0:
        _child(argv, out_dir, cwd, log_path, status_path, env)
    status = None
    while True:
        p, st = os.waitpid(pid, os.WNOHANG)
        if p:
            break
        if time.time() - t0 > timeout:
            os.kill(pid, signal.SIGKILL)
            os.waitpid(pid, 0)
            status = {'kind': 'timeout', 'etype': 'timeout', 'emsg': '%ss' % timeout}
            break
        time.sleep(0.005)
    if status is None:
        try:
            with open(status_path) as f:
                status = json.load(f)
        except Exception:
            status = {'kind': 'crash', 'etype': 'crash', 'emsg': 'wait status %s' % st}
    try:
        with open(log_path, encoding='utf-8', errors='replace') as f:
            log = f.read()
    except OSError:
        log = ''
    return Obs(argv=argv, ok=status['kind'] == 'ok', kind=status['kind'],
               etype=status.get('etype'), emsg=status.get('emsg'), tb=status.get('tb'),
               log=log, out_dir=out_dir, wall=time.time() - t0,
               files=sorted(set(tree(out_dir)) - before))


def cli_args(opts, input_dir, out_dir):
    """opts: plain dict -> command line."""
    o = dict(opts)
    a = ['--input_dir', input_dir, '--output_dir', out_dir,
         '--actions', o.pop('actions', 'zonedb'),
         '--languages', o.pop('languages', 'python'),
         '--scope', o.pop('scope'),
         '--tz_version', o.pop('tz_version', '2024b')]
    if o.pop('estimate', False) is False:
        a.append('--skip_bufestimator')
    for k in ('strict', 'compress'):
        if k in o:
            v = o.pop(k)
            a.append(('--' if v else '--no') + k)
    if o.pop('ignore_buf', False):
        a.append('--ignore_buf_size_too_large')
    a += ['--db_namespace', o.pop('db_namespace', 'zonedb')]
    for k in ('start_year', 'until_year', 'tiny_base_year', 'granularity',
              'until_at_granularity', 'offset_granularity', 'delta_granularity',
              'json_file', 'include_list'):
        if k in o:
            a += ['--' + k, str(o.pop(k))]
    assert not o, o
    return a


def pmap(fn, items, procs=None):
    """Ordered parallel map in forked worker processes."""
    items = list(items)
    procs = min(procs or int(os.environ.get('VT_PROCS', '8')), max(1, len(items)))
    if procs <= 1:
        return [fn(i) for i in items]
    ctx = multiprocessing.get_context('fork')
    with ctx.Pool(procs, maxtasksperchild=50) as pool:
        return pool.map(fn, items, chunksize=1)
