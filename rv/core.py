"""Runs the machinery: build the recorder, record, judge, model check, report."""
import hashlib
import json
import os
import re
import shutil
import socket
import struct
import subprocess
import sys
import time
from concurrent.futures import ThreadPoolExecutor

from . import script as S

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(VERIF, 'spec')
TLA = os.path.join(SPEC, 'tla')
HARNESS = os.path.join(VERIF, 'harness')
TARGET = os.path.join(HARNESS, 'target')
APALACHE_JAR = '/opt/veriftools/apalache/lib/apalache.jar'
EV = 64                      # bytes per event
PER_PACK = 100
ONE = 1 << 128


class ToolError(Exception):
    pass


class Violation(Exception):
    def __init__(self, what, replay):
        super().__init__(what)
        self.what = what
        self.replay = replay


def sh(cmd, timeout, cwd=None, env=None):
    try:
        return subprocess.run(cmd, cwd=cwd, env=env, timeout=timeout, stdout=subprocess.PIPE,
                              stderr=subprocess.PIPE, text=True, errors='replace')
    except subprocess.TimeoutExpired:
        raise ToolError('timeout after %ss: %s' % (timeout, ' '.join(cmd)[:200]))
    except OSError as e:
        raise ToolError('%s: %s' % (cmd[0], e))


def free_port():
    with socket.socket() as s:
        s.bind(('localhost', 0))
        return s.getsockname()[1]


# ---- building -----------------------------------------------------------------------------
def build(profiles=('dev', 'release')):
    """The recorder, from /repo's working tree. Cargo goes by modification times; drop its
    record of the crate under test so that any change of content is seen."""
    env = dict(os.environ, CARGO_NET_OFFLINE='true', CARGO_TARGET_DIR=TARGET)
    env.pop('RUSTFLAGS', None)
    for d in ('debug', 'release'):
        fp = os.path.join(TARGET, d, '.fingerprint')
        if os.path.isdir(fp):
            for n in os.listdir(fp):
                if n.startswith('rasp-'):
                    shutil.rmtree(os.path.join(fp, n), ignore_errors=True)
    out = {}
    for p in profiles:
        cmd = ['cargo', 'build', '--offline', '--locked', '-q'] + (['--release'] if p == 'release' else [])
        r = sh(cmd, 600, cwd=HARNESS, env=env)
        if r.returncode != 0:
            raise ToolError('the recorder does not build:\n' + r.stderr[-3000:])
        out[p] = os.path.join(TARGET, 'release' if p == 'release' else 'debug', 'rasp-recorder')
    return out


# ---- recording and judging --------------------------------------------------------------------
VERDICT = re.compile(
    r'>\s*verdict\s*\{\s*bad:\s*\{\s*at:\s*(-?\d+),\s*got:\s*(-?\d+),\s*op:\s*(-?\d+),'
    r'\s*want:\s*(-?\d+),\s*why:\s*"([^"]*)"\s*\},\s*done:\s*(\d+),\s*judged:\s*(\d+),'
    r'\s*used:\s*(\d+),\s*usedAt:\s*(\d+)\s*\}')


def judge(trace, workdir, name):
    """Decide with spec/trace.qnt whether the recorded events are a behaviour of the
    specification. trace: bytes."""
    n = len(trace) // EV
    size = EV * PER_PACK
    packs = [trace[i:i + size] for i in range(0, len(trace), size)]
    path = os.path.join(workdir, name + '.qnt')
    spec = os.path.relpath(os.path.join(SPEC, 'trace'), workdir)
    with open(path, 'w') as f:
        f.write('module replay {\n  import trace(PACKS=[\n%s\n], EVENTS=%d, EVENTS_PER_PACK=%d).* from "%s"\n}\n' % (
            ',\n'.join('0x' + p[::-1].hex().upper() for p in packs), n, PER_PACK, spec))
    r = sh(['quint', 'run', path, '--main=replay', '--max-samples=1', '--max-steps=%d' % len(packs),
            '--invariant=explained', '--verbosity=1'], 850,
           env=dict(os.environ, NODE_OPTIONS='--max-old-space-size=3000'))
    m = VERDICT.search(r.stdout)
    if not m:
        raise ToolError('no verdict on %s:\n%s\n%s' % (name, r.stdout[-1500:], r.stderr[-1500:]))
    at, got, op, want, why, done, judged, used, used_at = m.groups()
    v = dict(at=int(at), got=int(got), op=int(op), want=int(want), why=why, done=int(done),
             judged=int(judged), used=int(used), used_at=int(used_at), ok=(why == ''))
    if v['ok'] and (v['done'] != n or r.returncode != 0):
        raise ToolError('incomplete verdict on %s: %s\n%s' % (name, v, r.stdout[-500:] + r.stderr[-500:]))
    return v


def unpack(trace, i):
    return struct.unpack('<8Q', trace[i * EV:(i + 1) * EV])


def show_event(w):
    op, fl, pan = w[0] & 0xffff, (w[0] >> 16) & 0xffffffff, w[0] >> 48
    return dict(op=op, call=S.OPS.get(op, '?'), flags=fl, panicked=bool(pan), object=w[1],
                args=['%x' % x for x in w[2:7]], observed='%x' % w[7])


def fl64(b):
    return struct.unpack('<d', struct.pack('<Q', b))[0]


def human(op, v):
    """a fixed point number of the specification, for messages"""
    if v == 1 << 4000:
        return 'not finite'
    if abs(v) < (1 << 70):
        return '%d' % v
    try:
        return repr(v / ONE)
    except OverflowError:
        return str(v)


class Runner:
    """One run of one check."""

    def __init__(self, pid, tier, seed):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.t0 = time.time()
        self.work = os.path.join(VERIF, 'work', pid)
        shutil.rmtree(self.work, ignore_errors=True)
        os.makedirs(self.work)
        self.cov = dict(states=0, transitions=0, traces_validated_against_impl=0, samples=[],
                        models=[], events_recorded=0, observations_judged=0,
                        tolerance_used_permille=0, controls=[], episodes=0)
        self.level = 'model_checking'
        self.bins = None
        self.replays = os.path.join(VERIF, 'replays', pid)
        self.nreplay = 0
        self.assumptions = [
            'rasp is a sequential library: one event per public call, recorded at its return',
            'the Quint simulator, TLC and Apalache evaluate the specification correctly',
            'floating point results are compared within the tolerances stated in DESIGN.md',
        ]

    # -- evidence ------------------------------------------------------------------------
    def evidence(self, violations):
        self.cov['samples'] = self.cov['samples'][:6]
        d = dict(property=self.pid, tier=self.tier, seed=self.seed, level=self.level,
                 coverage=self.cov, assumptions=self.assumptions,
                 wall_s=round(time.time() - self.t0, 2), violations=violations)
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        path = os.path.join(VERIF, 'evidence', self.pid + '.json')
        with open(path + '.tmp', 'w') as f:
            json.dump(d, f, indent=1)
        os.replace(path + '.tmp', path)

    def save_replay(self, label, files, info):
        d = os.path.join(self.replays, '%s-%d' % (label, self.nreplay))
        self.nreplay += 1
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        for name, data in files.items():
            with open(os.path.join(d, name), 'wb') as f:
                f.write(data if isinstance(data, bytes) else data.encode())
        with open(os.path.join(d, 'info.json'), 'w') as f:
            json.dump(info, f, indent=1)
        return os.path.relpath(d, VERIF)

    # -- models ----------------------------------------------------------------------------
    def tlc(self, module, expect_ok=True, timeout=800, workers='auto', dump=False):
        """Exhaustively check invariant allOk of a compiled model (spec/tla)."""
        src = os.path.join(TLA, module + '.tla')
        check_compiled(module)
        d = os.path.join(self.work, 'tlc_' + module)
        os.makedirs(d, exist_ok=True)
        shutil.copy(src, d)
        with open(os.path.join(d, module + '.cfg'), 'w') as f:
            f.write('INIT\nq_init\nNEXT\nq_step\nINVARIANT\nq_inv\n')
        cmd = ['java', '-Xss256m', '-Xmx8g', '-cp', APALACHE_JAR, 'tlc2.TLC', '-deadlock',
               '-workers', workers, '-metadir', os.path.join(d, 'meta')]
        if dump:
            cmd += ['-dump', 'dot,actionlabels', os.path.join(d, 'graph.dot')]
        t = time.time()
        r = sh(cmd + [module + '.tla'], timeout, cwd=d)
        out = r.stdout
        m = re.search(r'([\d,]+) states generated, ([\d,]+) distinct states found, ([\d,]+) states left', out)
        bad = 'is violated' in out
        if bad and not m:       # an initial state does it
            m = re.match(r'(\d+)(\d+)(\d+)', '110')
        if not m or (not bad and 'No error has been found' not in out):
            raise ToolError('TLC on %s:\n%s' % (module, (out + r.stderr)[-2000:]))
        gen, dist = (int(x.replace(',', '')) for x in m.groups()[:2])
        if bad == expect_ok:
            raise ToolError('model %s: invariant %s' % (module, 'violated' if bad else 'not violated'))
        if expect_ok:
            self.cov['states'] += dist
            self.cov['transitions'] += gen
        self.cov['models'].append(dict(model=module, checker='TLC', exhaustive=expect_ok,
                                       result='holds' if expect_ok else 'violated, as it must be',
                                       distinct_states=dist, states_generated=gen,
                                       wall_s=round(time.time() - t, 1)))
        return os.path.join(d, 'graph.dot')

    def apalache(self, file, module, invariant, init='init', step='step', steps=1, timeout=600,
                 refute=False):
        t = time.time()
        d = os.path.join(self.work, 'apalache')
        os.makedirs(d, exist_ok=True)
        for _ in range(3):
            r = sh(['quint', 'verify', '--main=' + module, '--invariant=' + invariant, '--init=' + init,
                    '--step=' + step, '--max-steps=%d' % steps,
                    '--server-endpoint=localhost:%d' % free_port(), os.path.join(SPEC, file)], timeout, cwd=d)
            if 'already in use' not in r.stdout + r.stderr:
                break
        out = r.stdout + r.stderr
        if '[violation]' not in out if refute else r.returncode != 0 or '[ok]' not in out:
            raise ToolError('Apalache on %s:\n%s' % (module, (r.stdout + r.stderr)[-2000:]))
        self.cov['states'] += steps + 1
        self.cov['transitions'] += steps
        self.cov['models'].append(dict(model=module, checker='Apalache (symbolic, unbounded integers)',
                                       invariant=invariant, init=init, steps=steps,
                                       result='refuted, as it has to be' if refute else 'holds', wall_s=round(time.time() - t, 1)))

    def simulate(self, file, module, invariant, samples, steps, timeout=800):
        """Evaluate an invariant of the numeric specification on drawn parameters."""
        t = time.time()
        r = sh(['quint', 'run', os.path.join(SPEC, file), '--main=' + module, '--invariant=' + invariant,
                '--max-samples=%d' % samples, '--max-steps=%d' % steps, '--seed=%d' % (self.seed + 1),
                '--verbosity=1'], timeout)
        if r.returncode != 0 or '[ok]' not in r.stdout:
            raise ToolError('quint run on %s:\n%s' % (module, (r.stdout + r.stderr)[-2000:]))
        self.cov['states'] += samples * (steps + 1)
        self.cov['transitions'] += samples * steps
        self.cov['models'].append(dict(model=module, checker='quint run', invariant=invariant,
                                       drawn=samples * (steps + 1), result='holds',
                                       wall_s=round(time.time() - t, 1)))

    def selftest(self, file):
        r = sh(['quint', 'test', os.path.join(SPEC, file), '--match', 'Test', '--verbosity=1'], 300)
        if r.returncode != 0:
            raise ToolError('quint test %s:\n%s' % (file, (r.stdout + r.stderr)[-2000:]))
        self.cov['models'].append(dict(model=file, checker='quint test', result='passes'))

    # -- the real code ------------------------------------------------------------------------
    def record(self, lines, profile, name):
        spath = os.path.join(self.work, name + '.script')
        tpath = os.path.join(self.work, name + '.trace')
        with open(spath, 'w') as f:
            f.write('\n'.join(lines) + '\n')
        try:
            r = subprocess.run([self.bins[profile], spath, tpath], stdout=subprocess.PIPE,
                               stderr=subprocess.PIPE, timeout=300)
            rc = r.returncode
        except subprocess.TimeoutExpired:
            rc = 'timeout'
        if rc == 64:
            raise ToolError('bad script %s: %s' % (name, r.stderr.decode()[-500:]))
        if rc != 0:
            return None, rc
        with open(tpath, 'rb') as f:
            return f.read(), 0

    def conform(self, episodes, chunk=9000, jobs=8, control=True):
        """Replay episodes into the real crate and judge what was observed."""
        if self.bins is None:
            self.bins = build()
        t = time.time()
        groups = {}
        for e in episodes:
            groups.setdefault(e.profile, []).append(e)
        chunks = []
        for prof, eps in sorted(groups.items()):
            total = sum(e.cost for e in eps)
            k = max(1, int(total / chunk + 0.999), min(3, len(eps)) if total > 3000 else 1)
            bins = [[] for _ in range(k)]
            load = [0.0] * k
            for e in sorted(eps, key=lambda e: -e.cost):
                i = load.index(min(load))
                bins[i].append(e)
                load[i] += e.cost
            for i, b in enumerate(bins):
                if b:
                    chunks.append((prof, '%s_%d' % (prof, i), b))
        found = []
        results = []

        def one(c):
            prof, name, eps = c
            lines = [l for e in eps for l in e.lines]
            trace, rc = self.record(lines, prof, name)
            if trace is None:
                # find the first episode that ends the process
                for e in eps:
                    tr, rc1 = self.record(e.lines, prof, name + '_x')
                    if tr is None:
                        rep = self.save_replay(name, {'script': '\n'.join(e.lines) + '\n'},
                                               dict(episode=e.name, profile=prof, ended=str(rc1)))
                        return ('bad', 'the process ended (%s) in episode %s' % (rc1, e.name), rep, None)
                raise ToolError('recorder ended with %s, not reproducible (%s)' % (rc, name))
            if not trace:
                raise ToolError('empty trace ' + name)
            t1 = time.time()
            v = judge(trace, self.work, 'replay_' + name)
            if os.environ.get('RV_TIMES'):
                print('%s: cost %d, %d events, %.1f s' % (name, sum(e.cost for e in eps), v['done'], time.time() - t1))
            if v['ok'] and v['used'] > 300 and os.environ.get('RV_TIMES'):
                w = unpack(trace, v['used_at'])
                mine = [i for i in range(v['used_at']) if unpack(trace, i)[1] == w[1]]
                print('%s: %d/1000 used at event %d: %s after %s' % (
                    name, v['used'], v['used_at'], show_event(w), [
                        [S.OPS.get(unpack(trace, i)[0] & 0xffff)] + [fl64(x) for x in unpack(trace, i)[2:]]
                        for i in (mine[:3] + mine[-1:])]))
            if v['ok']:
                return ('ok', v, trace, None)
            return ('bad', self.describe(v, trace, eps, prof), self.explain(v, trace, eps, prof, name), v)

        with ThreadPoolExecutor(jobs) as ex:
            futs = [ex.submit(one, c) for c in chunks]
            for f in futs:
                results.append(f.result())
        first_trace = None
        for (prof, name, eps), r in zip(chunks, results):
            if r[0] == 'bad':
                found.append((r[1], r[2]))
                continue
            v, trace = r[1], r[2]
            if first_trace is None or prof == 'dev' and self.controllable(trace) > self.controllable(first_trace):
                first_trace = trace
            self.cov['events_recorded'] += v['done']
            self.cov['observations_judged'] += v['judged']
            self.cov['traces_validated_against_impl'] += len(eps)
            self.cov['episodes'] += len(eps)
            self.cov['tolerance_used_permille'] = max(self.cov['tolerance_used_permille'], v['used'])
            if len(self.cov['samples']) < 6:
                e = eps[0]
                self.cov['samples'].append(dict(episode=e.name, profile=prof, script_head=e.lines[:8],
                                                last_event=show_event(unpack(trace, len(trace) // EV - 1))))
        self.cov['conformance_wall_s'] = round(self.cov.get('conformance_wall_s', 0) + time.time() - t, 1)
        if found:
            raise Violation(*found[0])
        if control:
            self.control(first_trace)
        return results

    def describe(self, v, trace, eps, prof):
        w = unpack(trace, v['at'])
        return '%s build: event %d, %s: %s; specified %s, observed %s' % (
            prof, v['at'], S.OPS.get(v['op'], v['op']), v['why'], human(v['op'], v['want']), human(v['op'], v['got']))

    def explain(self, v, trace, eps, prof, name):
        """What to keep of a rejected trace: everything the object involved was told."""
        w = unpack(trace, v['at'])
        obj = w[1]
        mine = [show_event(unpack(trace, i)) for i in range(v['at'] + 1)
                if unpack(trace, i)[1] == obj][-400:]
        lines = [l for e in eps for l in e.lines]
        return self.save_replay(name, {'script': '\n'.join(lines) + '\n', 'trace': trace},
                                dict(profile=prof, verdict=dict(v, want=human(v['op'], v['want']),
                                                               got=human(v['op'], v['got'])),
                                     event=show_event(w), events_of_object=mine,
                                     how='cargo build the recorder in harness/, run it on `script`; '
                                         'judge with spec/trace.qnt'))

    def controllable(self, trace):
        """rather falsify a compared value than a finite one"""
        fl = [unpack(trace, i)[0] >> 16 for i in range(0, min(len(trace) // EV, 4000))]
        return 2 if any(f & S.CMP for f in fl) else 1 if any(f & S.MONO for f in fl) else 0

    def control(self, trace):
        """A recorded observation is falsified: the specification has to refuse it, or this
        check decides nothing."""
        n = len(trace) // EV
        cand = []
        shaped = any(unpack(trace, i)[0] & 0xffff == 55 for i in range(n))
        for i in range(n):
            w = unpack(trace, i)
            op, fl = w[0] & 0xffff, w[0] >> 16
            if fl & S.CMP and op in (2, 3, 5, 6, 7, 12, 14, 15, 16, 18, 19, 21, 24, 25, 30, 31, 33, 35,
                                     40, 41, 42, 43, 44, 45) and not (op in (30, 33) and w[6] != 1):
                cand.append(i)
            elif op in (50, 54) or (fl & S.FIN and op in (2, 5, 7, 40, 41)) or (fl & S.MONO and op in (40, 41)):
                cand.append(i)
            elif op == 30 and fl & S.FIN and w[6] == 1 and shaped:
                cand.append(i)
        cand = cand[:2000]
        if not cand:
            raise ToolError('no observation to falsify')
        def falsified(i):
            w = list(unpack(trace, i))
            op, fl = w[0] & 0xffff, w[0] >> 16
            if shaped and op == 30:
                w[7] = S.fb(fl64(w[7]) - 0.125)
            elif fl & S.MONO:
                w[7] = S.fb(-1e9)
            elif fl & S.FIN and not fl & S.CMP:
                w[7] = 0x7ff0000000000000
            elif op in (14, 31) or (op == 12 and w[7] < 1 << 40):
                w[7] += 1
            else:
                x = fl64(w[7])
                w[7] = S.fb(1.0 if x == 0 or x != x or abs(x) > 1e300 else x * 1.5 + (0.25 if op == 40 else 0))
            return struct.pack('<8Q', *w)
        for j in (len(cand) // 2, len(cand) // 3, 0, len(cand) - 1, len(cand) // 5):
            i = cand[j]
            t2 = trace[:i * EV] + falsified(i)
            if shaped:
                t2 += trace[(i + 1) * EV:]
            v = judge(t2, self.work, 'control')
            if not v['ok'] and (v['at'] == i or shaped and v['at'] > i):
                self.cov['controls'].append(dict(falsified=show_event(unpack(trace, i)), refused=v['why']))
                return
        # those may all be observations the specification leaves open: falsify every one
        t2, at = trace, set(cand)
        for i in cand:
            t2 = t2[:i * EV] + falsified(i) + t2[(i + 1) * EV:]
        v = judge(t2, self.work, 'control')
        if v['ok'] or v['at'] not in at:
            raise ToolError('a falsified observation was accepted')
        self.cov['controls'].append(dict(falsified=show_event(unpack(trace, v['at'])), refused=v['why']))

    def finish(self):
        shutil.rmtree(self.work, ignore_errors=True)


# ---- compiled models -------------------------------------------------------------------------------
MODELS = {
    'mc_delay.qnt': ['mc_delay_int', 'mc_delay_lin', 'mc_delay_int_small', 'mc_delay_lin_small',
                     'mc_delay_int_replay', 'mc_delay_lin_replay',
                     'mc_delay_asfound_grow', 'mc_delay_asfound_cache'],
    'mc_filter.qnt': ['mc_filter_quick', 'mc_filter_full'],
    'mc_env.qnt': ['mc_env_quick', 'mc_env_full'],
    'mc_window.qnt': ['mc_window_quick', 'mc_window_full'],
    'mc_proc.qnt': ['mc_proc_quick', 'mc_proc_full'],
}


def source_of(module):
    for f, ms in MODELS.items():
        if module in ms:
            return f
    raise ToolError('unknown model ' + module)


def digest(file):
    """of a model's source and everything it imports"""
    h = hashlib.sha256()
    seen, todo = set(), [file]
    while todo:
        f = todo.pop()
        if f in seen:
            continue
        seen.add(f)
        text = open(os.path.join(SPEC, f)).read()
        h.update(f.encode() + b'\0' + text.encode() + b'\0')
        todo += sorted((m + '.qnt' for m in re.findall(r'from "\./(\w+)"', text)), reverse=True)
    return h.hexdigest()


def check_compiled(module):
    path = os.path.join(TLA, module + '.tla')
    want = '\\* compiled from %s %s' % (source_of(module), digest(source_of(module)))
    if not os.path.exists(path) or want not in open(path).read():
        raise ToolError('spec/tla/%s.tla is not what spec/%s compiles to: run python3 -m rv.compile' % (
            module, source_of(module)))


def compile_model(module):
    src = source_of(module)
    d = os.path.join(VERIF, 'work', 'compile')
    os.makedirs(d, exist_ok=True)
    r = sh(['quint', 'compile', '--target=tlaplus', '--main=' + module, '--invariant=allOk',
            os.path.join(SPEC, src)], 300, cwd=d)
    i = r.stdout.find('-------')
    if r.returncode != 0 or i < 0:
        raise ToolError('quint compile %s: %s' % (module, (r.stdout + r.stderr)[-1500:]))
    return '\\* compiled from %s %s\n' % (src, digest(src)) + r.stdout[i:]
