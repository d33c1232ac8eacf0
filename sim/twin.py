"""Twin processes: the same plan carried out by another interpreter under other circumstances.

A twin differs in what must not matter: hash seed, clock, time zone, locale, environment, working directory,
process identity, memory layout, garbage collection.
"""
import hashlib
import json
import os
import subprocess
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
TWINS = [
    {'hash': '1', 'env': {'TZ': 'Pacific/Kiritimati', 'LC_ALL': 'C.UTF-8', 'LANG': 'C.UTF-8'}, 'clock': 4102444800.75, 'flags': [], 'gc': True,
     'cwd': '/', 'ballast': 1},
    {'hash': '4242', 'env': {'TZ': 'America/St_Johns', 'LC_ALL': 'C', 'LANG': '', 'HOME': '/nonexistent', 'USER': 'someone', 'PYTHONUTF8': '0',
                             'PYTHONCOERCECLOCALE': '0', 'SOURCE_DATE_EPOCH': '1', 'COLUMNS': '40', 'LINES': '10', 'NO_COLOR': '1', 'TERM': 'dumb'},
     'clock': 1.25, 'flags': ['-O'], 'gc': False, 'cwd': HERE, 'ballast': 1000},
    {'hash': '999999', 'env': {'TZ': 'UTC', 'LC_ALL': 'POSIX', 'COLUMNS': '300', 'PDFSYNTAX_DEBUG': '1', 'DEBUG': '1'}, 'clock': -86400.0,
     'flags': ['-X', 'dev', '-W', 'ignore'], 'gc': True, 'cwd': '/usr', 'ballast': 37},
]
_live = {}


def start(k):
    t = TWINS[k]
    env = {'PATH': os.environ.get('PATH', ''), 'PYTHONPATH': HERE, 'PYTHONHASHSEED': t['hash'], 'PYTHONDONTWRITEBYTECODE': '1',
           'VERIF_REPO': os.environ.get('VERIF_REPO', '/repo'), **t['env']}
    return subprocess.Popen([sys.executable] + t['flags'] + ['-c', f'import twin; twin.serve({k})'], env=env, cwd=t['cwd'],
                            stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.PIPE)


def ask(k, prop, plan):
    p = _live.get(k)
    if p is None or p.poll() is not None:
        p = _live[k] = start(k)
    p.stdin.write(json.dumps([prop, plan]).encode() + b'\n')
    p.stdin.flush()
    ln = p.stdout.readline()
    if not ln:
        raise RuntimeError('twin ended: ' + p.stderr.read().decode('utf-8', 'replace')[-1500:])
    return json.loads(ln)


def stop():
    for p in _live.values():
        p.stdin.close()
        p.wait()
    _live.clear()


def short(x):
    return repr(x)[:200]


def sealed(results):
    """[(label, sha, excerpt)]"""
    return [[n, hashlib.sha256(repr(x).encode('utf-8', 'backslashreplace')).hexdigest(), short(x)] for n, x in results]


def estrange(t):
    """Replace every source of time and identity the interpreter offers."""
    import time
    import datetime
    import random
    import uuid
    import gc
    now = [t['clock']]

    def tick(*a):
        now[0] += .125
        return now[0]
    real_gm, real_loc, real_str = time.gmtime, time.localtime, time.strftime
    for n in ('time', 'monotonic', 'perf_counter', 'process_time', 'thread_time'):
        setattr(time, n, tick)
        setattr(time, n + '_ns', lambda: int(tick() * 10 ** 9))
    time.gmtime = lambda s=None: real_gm(tick() if s is None else s)
    time.localtime = lambda s=None: real_loc(tick() if s is None else s)
    time.ctime = lambda s=None: time.asctime(time.localtime(s))
    time.strftime = lambda f, x=None: real_str(f, x or time.localtime())
    base = datetime.datetime

    class Clock(base):
        @classmethod
        def now(cls, tz=None):
            return base.fromtimestamp(tick(), tz)

        @classmethod
        def utcnow(cls):
            return base.fromtimestamp(tick(), datetime.timezone.utc).replace(tzinfo=None)

        @classmethod
        def today(cls):
            return base.fromtimestamp(tick())

    class Day(datetime.date):
        @classmethod
        def today(cls):
            return base.fromtimestamp(tick()).date()
    datetime.datetime, datetime.date = Clock, Day
    rnd = random.Random(t['hash'])
    os.urandom = lambda n: rnd.randbytes(n)
    random.seed(t['hash'])
    import secrets
    secrets.token_bytes = lambda n=32: rnd.randbytes(n)
    secrets.token_hex = lambda n=16: rnd.randbytes(n).hex()
    uuid.uuid4 = lambda: uuid.UUID(bytes=rnd.randbytes(16), version=4)
    uuid.uuid1 = uuid.uuid4
    pid = 1000 + t['ballast']
    os.getpid = lambda: pid
    if not t['gc']:
        gc.disable()
    estrange.keep = [object() for _ in range(t['ballast'] * 17)] + [bytearray(t['ballast'] * 100)]


def serve(k):
    estrange(TWINS[k])
    import core
    import sut
    out = sys.stdout.buffer
    for ln in sys.stdin.buffer:
        prop, plan = json.loads(ln)
        mod = core.load(prop)
        sut.install()
        sut.METER.reset(limit=30_000_000, mode='jump')
        try:
            res = sealed(mod.life(plan))
        except sut.Budget as e:
            res = [['endless', '', str(e)]]
        out.write(json.dumps(res).encode() + b'\n')
        out.flush()
