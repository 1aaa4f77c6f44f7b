"""P33 stored data survives crashes, full disks, interruptions, cut downloads and concurrent processes."""
import contextlib
import datetime as dt
import errno
import hashlib
import io
import os
import pickle
import random
import resource
import select
import signal
import socket
import struct
import sys
import threading
import time
import urllib.request
import warnings
import zlib
import zipfile

import numpy as np

from vlib.core import Spec
from checks.store import KINDS, alike, argument, dataset, key_of, load, root, value

S = Spec('P33', 'Loads of scratch datasets in child processes that die (before any write of the file system, at any byte of a file, inside the serialisation), get '
         'out-of-space errors or interruptions, or run at the same time with random pauses; downloads from a loopback server that cuts, resets, refuses or stalls; '
         'then the data is loaded by a new process. Non-trivial = distinct (kind, crash point or interleaving).',
         required=['killed_before_write', 'killed_in_file', 'disk_full', 'interrupted', 'killed_in_value', 'recovered', 'earlier_data_kept', 'concurrent', 'interleaved',
                   'same_data_twice', 'download_cut', 'download_reset', 'download_refused', 'download_killed', 'download_died', 'download_disk_full', 'download_complete', 'updated_first', 'download_once', 'updated', 'download_parsed', 'cleared_download', 'update_interrupted', 'update_interrupted_new'],
         assumptions=['The operating system keeps what it accepted (no power failure), os.replace is atomic and parsing is deterministic.',
                      'Clearing stored data while other processes use it is not considered.'])

WRITES = os.O_WRONLY | os.O_RDWR | os.O_CREAT | os.O_TRUNC | os.O_APPEND


def touches(event, args, where):
    """What the audit event changes under the folder, if anything."""
    if event == 'open':
        path, mode, flags = args
        if not isinstance(path, str) or not (flags or 0) & WRITES:
            return None
    elif event in ('os.rename', 'os.mkdir', 'os.remove', 'os.rmdir', 'os.truncate', 'os.link', 'os.symlink'):
        path = args[0]
    else:
        return None
    path = os.fsdecode(path) if isinstance(path, (str, bytes)) else ''
    if not path.startswith(where):
        return None
    return event + ' ' + path[len(where):]


def in_child(fn):
    """Run fn(write) in a forked process; write(obj) sends a message. Returns pid and pipe."""
    r, w = os.pipe()
    pid = os.fork()
    if pid:
        os.close(w)
        return pid, r
    code = 66
    try:
        signal.setitimer(signal.ITIMER_PROF, 0)
        os.close(r)
        warnings.simplefilter('ignore')
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))

        def write(obj):
            b = pickle.dumps(obj)
            os.write(w, struct.pack('<I', len(b)) + b)

        fn(write)
        code = 0
    except BaseException as e:
        try:
            import traceback
            write(('error', type(e).__name__, traceback.format_exc()[-1500:]))
            code = 67
        except BaseException:
            pass
    finally:
        os._exit(code)


def collect(pid, r, timeout=120):
    """Messages and wait status of the child."""
    data, end = b'', time.time() + timeout
    while True:
        left = end - time.time()
        ready = left > 0 and select.select([r], [], [], left)[0]
        if not ready:
            os.kill(pid, signal.SIGKILL)
            os.close(r)
            os.waitpid(pid, 0)
            return ['timeout'], None
        b = os.read(r, 1 << 16)
        if not b:
            break
        data += b
    os.close(r)
    status = os.waitpid(pid, 0)[1]
    out = []
    while len(data) >= 4:
        n = struct.unpack('<I', data[:4])[0]
        out.append(pickle.loads(data[4:4 + n]))
        data = data[4 + n:]
    return out, status


def fresh(ctx, where, seed, plan, key, once=True):
    """A new process loads everything: equal data; the second load of each does not parse."""
    def work(write):
        parsed = []
        cls = dataset(where, seed, parsed)
        for v, kind, arg in plan:
            got = load(cls(version=v), kind, arg)
            n = len(parsed)
            again = load(cls(version=v), kind, arg)
            write((v, kind, alike(got, value(seed, v, kind, arg)), alike(again, value(seed, v, kind, arg)), len(parsed) - n, n))
            del parsed[:]

    out, status = collect(*in_child(work))
    bad = [m for m in out if m == 'timeout' or m[0] == 'error']
    ctx.check(not bad, key + '-fails', lambda: 'loading again: %s' % (bad,))
    if bad:
        return []
    ctx.check(len(out) == len(plan), key + '-fails', lambda: 'status %s' % status)
    for v, kind, a, b, again, first in out:
        ctx.check(a and b, key + '-wrong', lambda: '%s of version %s loaded afterwards is not what is parsed' % (kind, v))
        if once:
            ctx.eq(again, 0, key + '-not-stored', '%s parsed again by the second load' % kind)
    ctx.event('recovered', len(out))
    return [o[5] for o in out]


LISTS = ['appliances', 'crest_light', 'buildings', 'heating', 'thermostat']


def usable(ctx):
    left = ctx.choice(['tpm', 'sparse'])        # share names (F02)
    return [k for k in sorted(KINDS) if k != left]


@S.scenario(360, 6000)
def crash(ctx):
    """The process ends at any point of a load."""
    seed, where = ctx.randint(0, 10 ** 9), root(ctx)
    version = ctx.choice([None, 'v1'])
    HARD = usable(ctx)
    how = ctx.choice(['write', 'write', 'file', 'full', 'interrupt', 'value'])
    kind = ctx.choice(HARD if how != 'value' else LISTS)
    arg = argument(ctx.rng, kind)
    before = [(ctx.choice([None, 'v1']), k, argument(ctx.rng, k)) for k in (ctx.choice(HARD) for _ in range(ctx.randint(0, 2)))]
    # number of points of the load, from a run elsewhere
    import tempfile
    count = []
    with tempfile.TemporaryDirectory(dir=os.path.dirname(where)) as d:
        def probe(write):
            n = {'write': 0, 'value': 0}

            def hook(event, args):
                if touches(event, args, d):
                    n['write'] += 1

            def delay():
                n['value'] += 1

            c = dataset(d, seed, delay=delay)
            sys.addaudithook(hook)
            load(c(version=version), kind, arg)
            size = max(os.path.getsize(os.path.join(a, f)) for a, _, fs in os.walk(d) for f in fs)
            write((n, size))
        out, status = collect(*in_child(probe))
        ctx.check(len(out) == 1 and status == 0, 'probe', lambda: str(out))
        if len(out) != 1 or status != 0:
            return
        n, size = out[0]
    if how == 'value' and not n['value']:
        how = 'file'
    at = ctx.randint(1, n['write'] if how in ('write', 'interrupt') else n['value']) if how in ('write', 'interrupt', 'value') else \
        ctx.randint(0, max(0, size - 1))
    ctx.case(seed=seed, version=version, kind=kind, arg=arg, before=[(v, k, str(a)) for v, k, a in before], how=how, at=at, size=size)
    if before:
        fresh(ctx, where, seed, before, 'before')

    def die(write):
        seen = [0]

        def tick(what):
            seen[0] += 1
            if seen[0] == at:
                write(('point', what))
                if how == 'interrupt':
                    raise KeyboardInterrupt()
                os._exit(99)

        def hook(event, args):
            if how in ('write', 'interrupt'):
                what = touches(event, args, where)
                if what:
                    tick(what)

        c = dataset(where, seed, delay=lambda: tick('value') if how == 'value' else None)
        if how in ('file', 'full'):
            signal.signal(signal.SIGXFSZ, signal.SIG_DFL if how == 'file' else signal.SIG_IGN)
            resource.setrlimit(resource.RLIMIT_FSIZE, (at, at))
        sys.addaudithook(hook)
        try:
            load(c(version=version), kind, arg)
            write(('done',))
        except KeyboardInterrupt:
            write(('interrupted',))
        except OSError as e:
            write(('oserror', e.errno))

    out, status = collect(*in_child(die))
    died = status is not None and os.WIFEXITED(status) and os.WEXITSTATUS(status) == 99
    ctx.event('killed_before_write', how == 'write' and died)
    ctx.event('killed_in_value', how == 'value' and died)
    ctx.event('killed_in_file', how == 'file' and status is not None and os.WIFSIGNALED(status) and os.WTERMSIG(status) == signal.SIGXFSZ)
    ctx.event('disk_full', ('oserror', errno.EFBIG) in out)
    ctx.event('interrupted', ('interrupted',) in out)
    if how == 'full' and ('done',) not in out:
        ctx.check(('oserror', errno.EFBIG) in out, 'disk-full-hidden', lambda: 'full disk gives %s' % out)
    order = [(version, kind, arg)] + before
    ctx.rng.shuffle(order)
    parsed = fresh(ctx, where, seed, order, 'after-crash')
    lost = {(v, k, key_of(k, a)) for v, k, a in before}
    for i, (v, k, a) in enumerate(order[:len(parsed)]):
        if (v, k, key_of(k, a)) in lost and (k, key_of(k, a)) != (kind, key_of(kind, arg)):
            ctx.eq(parsed[i], 0, 'earlier-lost', '%s stored before the crash is parsed again' % k)
            ctx.event('earlier_data_kept')
    where_at = [m[1] for m in out if m[0] == 'point']
    ctx.state(kind, how, where_at[0] if where_at else at)


@S.scenario(160, 3000)
def together(ctx):
    """Processes that load at the same time all get the data."""
    seed, where = ctx.randint(0, 10 ** 9), root(ctx)
    HARD = usable(ctx)
    items = [(ctx.choice([None, 'v1']), k, argument(ctx.rng, k)) for k in (ctx.choice(HARD) for _ in range(ctx.randint(1, 3)))]
    plans = []
    for _ in range(ctx.randint(2, 4)):
        p = [items[0]] + [items[ctx.randint(0, len(items) - 1)] for _ in range(ctx.randint(0, 2))]
        ctx.rng.shuffle(p)
        plans.append(p)
    ctx.case(seed=seed, plans=[[(v, k, str(a)) for v, k, a in p] for p in plans])
    go_r, go_w = os.pipe()
    log_r, log_w = os.pipe()
    children = []
    for i, p in enumerate(plans):
        pause = random.Random(ctx.randint(0, 10 ** 9))

        def work(write, i=i, p=p, pause=pause):
            os.close(go_w)
            os.close(log_r)

            def wait():
                k = pause.random()
                if k < .4:
                    time.sleep(pause.random() * .006)
                elif k < .6:
                    os.sched_yield()

            def hook(event, args):
                what = touches(event, args, where)
                if what:
                    os.write(log_w, b'%d' % i)
                    wait()

            cls = dataset(where, seed, delay=wait)
            os.read(go_r, 1)        # ends when the parent closes it
            sys.addaudithook(hook)
            for v, kind, arg in p:
                got = load(cls(version=v), kind, arg)
                write((kind, alike(got, value(seed, v, kind, arg))))

        children.append(in_child(work))
    os.close(go_r)
    os.close(log_w)
    time.sleep(.002)
    os.close(go_w)
    results = [collect(*c) for c in children]
    order = b''
    while True:
        b = os.read(log_r, 4096)
        if not b:
            break
        order += b
    os.close(log_r)
    order = order.decode()
    for i, (out, status) in enumerate(results):
        bad = [m for m in out if m == 'timeout' or m[0] == 'error']
        ctx.check(not bad and status == 0, 'concurrent-fails', lambda: 'process %d of %d: %s (writes by %s)' % (i, len(plans), bad or status, order))
        for m in out:
            if m != 'timeout' and m[0] != 'error':
                ctx.check(m[1], 'concurrent-wrong', lambda: 'process %d read wrong data of %s' % (i, m[0]))
                ctx.event('concurrent')
    switches = sum(a != b for a, b in zip(order, order[1:]))
    ctx.event('interleaved', switches > len(plans))
    ctx.event('same_data_twice')
    distinct = {(v, k, str(key_of(k, a))): (v, k, a) for p in plans for v, k, a in p}
    n = fresh(ctx, where, seed, list(distinct.values()), 'after-concurrent')
    ctx.eq(sum(n), 0, 'concurrent-not-stored', 'parsings after all processes loaded')
    ctx.state(hashlib.md5(order.encode()).hexdigest())


class Server:
    """A loopback web server that behaves as told by the plan."""

    def __init__(self, payload):
        self.payload, self.plan, self.requests = payload, [], 0
        self.sock = socket.create_server(('127.0.0.1', 0))
        self.port = self.sock.getsockname()[1]
        self.stalled = threading.Event()
        self.closing = False
        self.thread = threading.Thread(target=self.serve, daemon=True)
        self.thread.start()

    def serve(self):
        while True:
            try:
                c, _ = self.sock.accept()
            except OSError:
                return
            if self.closing:
                c.close()
                return
            try:
                self.answer(c)
            except OSError:
                pass
            finally:
                c.close()

    def answer(self, c):
        c.settimeout(60)
        got = b''
        while b'\r\n\r\n' not in got:
            b = c.recv(4096)
            if not b:
                return
            got += b
        self.requests += 1
        what, n = self.plan.pop(0) if self.plan else ('ok', 0)
        body = self.payload
        if what == 'refuse':
            c.sendall(b'HTTP/1.1 %d no\r\nContent-Length: 0\r\nConnection: close\r\n\r\n' % n)
            return
        c.sendall(b'HTTP/1.1 200 OK\r\nContent-Type: application/octet-stream\r\nContent-Length: %d\r\nConnection: close\r\n\r\n' % len(body))
        if what == 'ok':
            c.sendall(body)
            return
        c.sendall(body[:n])
        if what == 'reset':
            time.sleep(.002)
            c.setsockopt(socket.SOL_SOCKET, socket.SO_LINGER, struct.pack('ii', 1, 0))
        elif what == 'stall':
            self.stalled.set()
            c.recv(1)       # until the reader dies

    def close(self):
        self.closing = True
        with contextlib.suppress(OSError):
            socket.create_connection(('127.0.0.1', self.port), timeout=5).close()
        self.thread.join(10)
        self.sock.close()


def redirect(port):
    """All urls are fetched from the loopback server (in this process only)."""
    opener = urllib.request.OpenerDirector
    real = opener.open

    def open_(self, fullurl, data=None, timeout=30):
        return real(urllib.request.build_opener(urllib.request.ProxyHandler({})), 'http://127.0.0.1:%d/x' % port, None, 30)

    opener.open = open_


def zipped(rng, top):
    names = [top + 'f%d/%s' % (rng.integers(0, 3), ''.join('abcdef'[j] for j in rng.integers(0, 6, 5))) for _ in range(int(rng.integers(1, 7)))]
    content = {n: rng.bytes(int(rng.integers(0, 60000))) for n in names}
    b = io.BytesIO()
    with zipfile.ZipFile(b, 'w', zipfile.ZIP_DEFLATED if rng.random() < .5 else zipfile.ZIP_STORED) as z:
        for n, x in content.items():
            z.writestr(n, x)
    return b.getvalue(), content


def digest(where):
    """A number for the raw data that are there."""
    n = 0
    for folder, _, names in sorted(os.walk(os.path.join(where, 'raw_data'))):
        for f in sorted(names):
            if not f.endswith('.zip'):
                with open(os.path.join(folder, f), 'rb') as h:
                    n = zlib.crc32(h.read(), zlib.crc32(f.encode(), n))
    return float(n)


def case(name, rng, where):
    """(payload, construct, files that must be there after a complete download)"""
    if name == 'ninja':
        from demod.datasets.RenewablesNinja.loader import NinjaRenewablesClimate as C
        p = rng.bytes(int(rng.integers(1, 200000)))
        w = str(rng.choice(['population', 'land_area']))
        cls = type('C', (C,), {'DATASET_NAME': where, '_parse_historical_climate_data': lambda self, start=None: {
            'datetime': np.datetime64('2010-01-01') + np.timedelta64(1, 'h') * np.arange(3), 'x': np.full(3, digest(where))}})

        def make(**k):
            loader = cls('germany', weighted_type=w, **k)
            return lambda: float(loader.load_historical_climate_data(dt.datetime(2010, 1, 1))['x'][0])
        return p, make, {'raw_data/DE_%s.csv' % w: p}
    if name == 'crest':
        from demod.datasets.CREST.loader import Crest as C
        p = rng.bytes(int(rng.integers(1, 200000)))
        v = str(rng.choice(['2.2', '2.3.3']))
        cls = type('C', (C,), {'DATASET_NAME': where})
        return p, lambda **k: cls(v), {'raw_data/CREST_Demand_Model_v%s.xlsm' % v: p}
    if name == 'tracebase':
        from demod.datasets.tracebase.loader import Tracebase as C
        p, content = zipped(rng, 'tracebase-master/')
        cls = type('C', (C,), {'DATASET_NAME': where, '_parse_real_profiles_dict': lambda self, kind: {'x': {'y': np.full(3, digest(where))}}})

        def make(**k):
            loader = cls(**k)
            return lambda: float(loader.load_real_profiles_dict('full')['x']['y'][0])
        return p, make, {'raw_data/' + n: x for n, x in content.items()}
    if name == 'gtou':
        from demod.datasets.GermanTOU.loader import GTOU as C
        p, content = zipped(rng, '')
        cls = type('C', (C,), {'DATASET_NAME': where, '_raw_file_exists': lambda self: False})
        return p, lambda **k: cls('4_States', **k), {'parsed_data/4_States/' + n: x for n, x in content.items()}
    if name == 'germany':
        from demod.datasets.Germany.loader import GermanDataHerus as C
        import demod.datasets.Germany.loader as m
        p = rng.bytes(int(rng.integers(1, 200000)))
        cls = type('C', (C,), {'DATASET_NAME': where})

        def make(**k):
            class Nothing:
                refresh_time = None

                def __init__(self, *a, **k):
                    pass
            m.GTOU = m.Destatis = m.NinjaRenewablesClimate = Nothing     # in the child process
            return cls()
        return p, make, {'raw_data/data_v0.1.xlsx': p}
    from demod.datasets.DESTATIS.loader import Destatis as C
    p = rng.bytes(int(rng.integers(1, 200000)))
    cls = type('C', (C,), {'DATASET_NAME': where})

    def make(**k):
        d = cls()
        import pandas as pd
        frame = pd.DataFrame
        path = os.path.join(where, 'raw_data', 'appliances_penetration.ods')

        class Read(Exception):
            pass

        def no(*a, **k):
            raise Read()
        for f in ('read_excel', 'ExcelFile'):
            setattr(pd, f, no)
        try:
            d.load_appliance_ownership_dict({'n_residents': 1})
        except Read:
            pass
    return p, make, {'raw_data/appliances_penetration.ods': p}


@S.scenario(90, 2000)
def download(ctx):
    """A download that does not end is done again; a complete one is not."""
    where = root(ctx)
    name = ctx.choice(['ninja', 'ninja', 'ninja', 'crest', 'tracebase', 'gtou', 'germany', 'destatis'])
    try:
        payload, make, files = case(name, ctx.rng, where)
    except (ImportError, AttributeError):
        raise
    server = Server(payload)
    try:
        plan = []
        for _ in range(ctx.randint(0, 3)):
            what = ctx.choice(['cut', 'reset', 'refuse', 'stall', 'die', 'die', 'full'])
            plan.append((what, ctx.choice([500, 503, 404, 403]) if what == 'refuse' else ctx.randint(1, 14) if what == 'die' else
                         ctx.randint(0, len(payload)) if what == 'full' else ctx.choice([0, len(payload) - 1, ctx.randint(0, len(payload) - 1), len(payload) // 2])))
        ctx.case(name=name, plan=plan, size=len(payload))

        def attempt(die=0, limit=None, **k):
            def work(write):
                redirect(server.port)
                left = [die]

                def hook(event, args):
                    if touches(event, args, where):
                        left[0] -= 1
                        if left[0] == 0:
                            os._exit(99)
                if die:
                    sys.addaudithook(hook)
                if limit is not None:
                    signal.signal(signal.SIGXFSZ, signal.SIG_IGN)
                    resource.setrlimit(resource.RLIMIT_FSIZE, (limit, limit))
                try:
                    data = make(**k)
                    if callable(data):
                        write(('fine', data()))
                        return
                except Exception as e:
                    write(('failed', type(e).__name__, str(e)[:300]))
                    return
                write(('fine',))
            return in_child(work)

        done = False        # perhaps nothing is left to do
        for step in plan:
            server.plan[:] = [step if step[0] not in ('die', 'full') else ('ok', 0)]
            server.stalled.clear()
            n = server.requests
            pid, r = attempt(**{'die': step[1]} if step[0] == 'die' else {'limit': step[1]} if step[0] == 'full' else {})
            if step[0] == 'stall':
                ok = server.stalled.wait(2 if done else 60)
                time.sleep(ctx.rng.random() * .01)
                os.kill(pid, ctx.choice([signal.SIGKILL, signal.SIGKILL, signal.SIGINT]))
            out, status = collect(pid, r)
            ctx.check(done or step[0] in ('die', 'full') or server.requests > n, 'incomplete-kept', lambda: '%s: nothing downloaded after %s' % (name, plan))
            if step[0] in ('die', 'full'):
                done = True
                died = status is not None and os.WIFEXITED(status) and os.WEXITSTATUS(status) == 99
                ctx.event('download_died', died)
                ctx.event('download_disk_full', step[0] == 'full' and out and out[0][0] == 'failed')
                if not died and step[0] == 'die':
                    break
            elif server.requests == n:
                pass
            elif step[0] == 'stall':
                ctx.event('download_killed', ok)
            else:
                ctx.check(out and out[0][0] in ('failed', 'error'), 'incomplete-accepted', lambda: '%s: %s gives %s' % (name, step, out))
                ctx.event({'cut': 'download_cut', 'reset': 'download_reset', 'refuse': 'download_refused'}[step[0]])

        def complete(n, key, what):
            server.plan[:] = []
            out, status = collect(*attempt(**({'update_raw_data': True} if what == 'update' else {'clear_parsed_data': True} if what == 'clear' else {})))
            ctx.check(out and out[0][0] == 'fine', key + '-fails', lambda: '%s after %s: %s' % (name, plan, out))
            if not (what == 'first' and done):
                ctx.eq(server.requests - n > 0, what != 'again', key + '-download', '%s: download' % name)
            if out and len(out[0]) > 1:
                ctx.eq(out[0][1], digest(where), key + '-stale', '%s: data of other raw data' % name)
                ctx.event('download_parsed')
            for f, content in files.items():
                try:
                    with open(os.path.join(where, f), 'rb') as h:
                        got = h.read()
                except FileNotFoundError:
                    got = None
                ctx.check(got == content, key + '-content', lambda: '%s: %s has %s bytes instead of %d' % (name, f, None if got is None else len(got), len(content)))

        if name in ('ninja', 'tracebase') and not done and ctx.rng.random() < .4:
            complete(server.requests, 'retry', 'update')
            ctx.event('updated_first')
        else:
            complete(server.requests, 'retry', 'first')
        ctx.event('download_complete')
        complete(server.requests, 'again', 'again')
        ctx.event('download_once')
        if name in ('ninja', 'tracebase') and ctx.rng.random() < .7:
            server.payload, _, new = case(name, ctx.rng, where)
            if name == 'ninja':
                new = {list(files)[0]: server.payload}
            files = new
            complete(server.requests, 'update', 'update')
            ctx.event('updated')
        if name in ('ninja', 'tracebase') and ctx.rng.random() < .7:
            # an update that does not end: what is used then belongs to the raw data that are there
            old, (server.payload, _, new) = files, case(name, ctx.rng, where)
            if name == 'ninja':
                new = {list(files)[0]: server.payload}
            what = ctx.choice(['die'] * 8 + ['full', 'cut', 'reset', 'stall'])
            amount = ctx.randint(1, 8 if name == 'ninja' else 14) if what == 'die' else ctx.randint(0, len(server.payload) - 1)
            server.plan[:] = [(what if what in ('cut', 'reset', 'stall') else 'ok', amount)]
            server.stalled.clear()
            pid, r = attempt(update_raw_data=True, **{'die': amount} if what == 'die' else {'limit': amount} if what == 'full' else {})
            if what == 'stall':
                server.stalled.wait(60)
                os.kill(pid, signal.SIGKILL)
            out, status = collect(pid, r)
            server.plan[:] = []
            ctx.event('update_interrupted', what != 'die' or os.WIFEXITED(status) and os.WEXITSTATUS(status) == 99)
            out, status = collect(*attempt())
            label = '%s after an update with %s %d' % (name, what, amount)
            if ctx.check(out and out[0][0] == 'fine', 'interrupted-update-fails', lambda: '%s: %s' % (label, out)):
                ctx.eq(out[0][1], digest(where), 'interrupted-update-stale', '%s: data of other raw data' % label)
            with open(os.path.join(where, list(old)[0] if name == 'ninja' else 'raw_data/raw_github.zip'), 'rb') as h:
                files = new if h.read() == server.payload else old
            ctx.event('update_interrupted_new', files is new)
            complete(server.requests, 'interrupted-again', 'again')
        if name == 'gtou' and ctx.rng.random() < .6:
            complete(server.requests, 'cleared', 'clear')
            ctx.event('cleared_download')
        ctx.state(name, tuple(p[0] for p in plan), len(payload))
    finally:
        server.close()
