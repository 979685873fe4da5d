"""Runs one check: build, seeded batches, gating, minimisation, evidence.

  check.py <property>            run the check (VERIF_SEED, VERIF_TIER)
  check.py replay <file>         rebuild and replay a replay file
  check.py setup                 check the tool chain
  check.py determinism [n]       run many seeds twice and compare the logs
"""
import concurrent.futures as cf
import hashlib, json, os, re, struct, subprocess, sys, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(VERIF, 'tools'))
import simbuild
from props import PROPS

NCPU = max(2, min(8, os.cpu_count() or 2))
INTERNAL = {90, 91, 95, 96, 97, 98, 99}


class CheckError(Exception):
    pass


def sim_run(exe, args, timeout):
    try:
        r = subprocess.run([exe] + args, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout)
        return r.returncode, r.stdout.decode('utf8', 'replace'), r.stderr.decode('utf8', 'replace')
    except subprocess.TimeoutExpired as e:
        return 'timeout', (e.stdout or b'').decode('utf8', 'replace'), ''


def replay(exe, path):
    """-> (class or None, hash, message)"""
    rc, out, err = sim_run(exe, ['replay', path], 150)
    if rc == 0:
        m = re.search(r'^OK (\w+)', out, re.M)
        return None, m.group(1) if m else '?', ''
    if rc == 3:
        m = re.search(r'^VIOL (\S+) (\w+) (.*)', out, re.M)
        if m:
            return m.group(1), m.group(2), m.group(3)
    if rc in INTERNAL or rc == -9:
        raise CheckError('simulator error %s: %s' % (rc, err[-400:]))
    if rc == 'timeout':
        return 'no-progress', '-', 'the run does not end'
    return 'process-died', str(rc), 'the process ended with %s: %s' % (rc, err[-200:])


class Minimiser:
    def __init__(self, exe, cls, work, seconds):
        self.exe, self.cls, self.work = exe, cls, work
        self.until = time.time() + seconds
        self.n = 0

    def fails(self, head, lines):
        if time.time() > self.until:
            return False
        self.n += 1
        p = '%s/min_%d_%d.plan' % (self.work, os.getpid(), self.n)
        with open(p, 'w') as f:
            f.write('\n'.join([head] + lines) + '\n')
        try:
            c, _, _ = replay(self.exe, p)
        except CheckError:
            c = None
        os.unlink(p)
        return c == self.cls

    def lines(self, head, ls):
        n = 2
        while len(ls) >= 2 and time.time() < self.until:
            size = max(1, len(ls) // n)
            cut = False
            i = 0
            while i < len(ls):
                t = ls[:i] + ls[i + size:]
                if t and self.fails(head, t):
                    ls = t
                    cut = True
                else:
                    i += size
            if not cut:
                if size == 1:
                    break
                n = min(len(ls), n * 2)
            else:
                n = max(2, n - 1)
        return ls

    def words(self, head, ls):
        """drop and simplify key=value words"""
        for i in range(len(ls)):
            changed = True
            while changed and time.time() < self.until:
                changed = False
                w = ls[i].split(' ')
                for j in range(len(w) - 1, 0, -1):
                    for alt in self.alts(w[j]):
                        t = w[:j] + ([alt] if alt else []) + w[j + 1:]
                        u = ls[:i] + [' '.join(t)] + ls[i + 1:]
                        if self.fails(head, u):
                            ls = u
                            changed = True
                            break
                    if changed:
                        break
        return ls

    @staticmethod
    def alts(word):
        k, _, v = word.partition('=')
        if not _:
            return []
        out = []
        if k not in ('op', 'kind', 'v', 'b', 'd', 'f', 'e', 'o', 'n', 'id', 'to', 'task'):
            out.append('')
        m = re.match(r'^(r:[0-9a-f]+|z|f|i):(\d+)(.*)$', v)
        if m:
            n = int(m.group(2))
            if m.group(3):
                out.append('%s=%s:%d' % (k, m.group(1), n))
            for x in (0, 1, n // 2, n - 1):
                if x < n and k in ('m', 'c', 'm2', 'c2', 'msg'):
                    out.append('%s=%s:%d%s' % (k, m.group(1), x, m.group(3)))
            if m.group(1) != 'z' and not m.group(3):
                out.append('%s=z:%d' % (k, n))
        elif re.match(r'^\d+$', v) and int(v) > 0 and k in ('rep', 'n', 'd', 'seed', 'cl'):
            n = int(v)
            for x in (0, 1, n // 2, n - 1):
                if x < n:
                    out.append('%s=%d' % (k, x))
        elif ',' in v:
            p = v.split(',')
            for x in range(len(p)):
                out.append('%s=%s' % (k, ','.join(p[:x] + p[x + 1:])))
        return out


def union(files):
    s = set()
    for f in files:
        try:
            b = open(f, 'rb').read()
        except OSError:
            continue
        s.update(struct.unpack('<%dQ' % (len(b) // 8), b[:len(b) // 8 * 8]))
    return s


def add(d, e):
    for k, v in e.items():
        d[k] = d.get(k, 0) + v


def report(exe, prop, world, seed, idx, plan_text, cls, h, work):
    """Gate, minimise, write the replay file. Returns its path."""
    p0 = work + '/found.plan'
    open(p0, 'w').write(plan_text)
    a = replay(exe, p0)
    b = replay(exe, p0)
    if a[0] is None or a[:2] != b[:2] or (cls and a[0] != cls):
        raise CheckError('violation %s of run %s did not replay: %s / %s' % (cls, idx, a, b))
    cls = a[0]
    lines = [l for l in plan_text.split('\n') if l]
    head, ls = lines[0], lines[1:]
    m = Minimiser(exe, cls, work, 60)
    ls = m.lines(head, ls)
    ls = m.words(head, ls)
    ls = m.lines(head, ls)
    os.makedirs(VERIF + '/replays', exist_ok=True)
    body = '\n'.join([head] + ls) + '\n'
    path = '%s/replays/%s-%s.plan' % (VERIF, prop, hashlib.sha1(body.encode()).hexdigest()[:10])
    tmp = work + '/final.plan'
    open(tmp, 'w').write(body)
    c = replay(exe, tmp)
    d = replay(exe, tmp)
    if c[0] != cls or c[:2] != d[:2]:
        body = plan_text
        c = a
    open(path, 'w').write('# property %s, world %s, seed %s, run %s\n# %s\n# event log %s\n' % (prop, world, seed, idx, (c[0] + ': ' + c[2]).replace('\n', ' '), c[1]) + body)
    e = replay(exe, path)
    if e[:2] != c[:2]:
        raise CheckError('replay file does not reproduce: %s / %s' % (c, e))
    print('violation of %s: %s' % (prop, (c[0] + ': ' + c[2])[:1500]))
    print('found by run %s of seed %s; %d of %d plan lines remain after %d replays' % (idx, seed, len(body.split('\n')) - 2, len(lines) - 1, m.n))
    return path


def run_parts(prop, P, seed, tier, t0):
    """Runs every part of a check. Returns (coverage, violation path or None)."""
    tot = dict(runs=0, rechecked=0, steps=0, sim_us=0)
    faults, probes, ops = {}, {}, {}
    distinct, inter = set(), set()
    samples = []
    viol = None
    batch_seconds = 0.0
    parts = []
    exes = {}
    budget = P['seconds'][tier]
    for part in P['parts']:
        if part['kind'] not in exes:
            exes[part['kind']] = simbuild.build('%s_%s' % (prop, part['kind']), part['kind'])
    tb = time.time()
    share = sum(p['runs'][tier] > 0 for p in P['parts']) or 1
    for part in P['parts']:
        n = part['runs'][tier]
        if n <= 0:
            continue
        exe, world = exes[part['kind']], part['world']
        work = os.path.dirname(exe)
        jobs = min(NCPU, part.get('jobs', NCPU))
        per = (n + jobs - 1) // jobs
        lim = budget * part.get('share', 1.0 / share)
        procs = []
        ts = time.time()
        for k in range(jobs):
            pre = '%s/%s_%d' % (work, world, k)
            pr = subprocess.Popen([exe, 'batch', world, str(seed), str(k * per), str(min(per, max(0, n - k * per))), '%.1f' % lim, pre],
                                  stdout=open(pre + '.out', 'w'), stderr=open(pre + '.err', 'w'))
            procs.append((pr, pre, k))
        hard = time.time() + lim + 150
        bad = []
        live = list(procs)
        while live:
            for x in list(live):
                rc = x[0].poll()
                if rc is not None:
                    live.remove(x)
                    if rc != 0:
                        bad.append((x[2], rc, x[1]))
            if bad and any(rc == 3 for _, rc, _ in bad):
                # let the earlier ranges go on for a moment, then stop
                time.sleep(0.3)
                for x in live:
                    x[0].kill()
                    x[0].wait()
                live = []
            if live and time.time() > hard:
                for x in live:
                    x[0].kill()
                    x[0].wait()
                    bad.append((x[2], 'timeout', x[1]))
                live = []
            if live:
                time.sleep(0.05)
        batch_seconds += time.time() - ts
        pres = [pre for _, pre, _ in procs]
        st = dict(world=world, build=part['kind'], runs=0)
        for pre in pres:
            try:
                j = json.load(open(pre + '.json'))
            except (OSError, ValueError):
                continue
            for k in tot:
                tot[k] += j[k]
            st['runs'] += j['runs']
            add(faults, j['faults'])
            add(probes, j['probes'])
            add(ops, j['ops'])
        distinct |= union(p + '.distinct' for p in pres)
        inter |= union(p + '.inter' for p in pres)
        parts.append(st)
        for i in (0, 1):
            rc, out, err = sim_run(exe, ['gen', world, str(seed), str(i)], 60)
            if rc == 0:
                samples.append(dict(world=world, run=i, plan=[l[:300] for l in out.split('\n')[1:] if l][:12]))
        if bad:
            found = []
            for k, rc, pre in bad:
                out = open(pre + '.out').read()
                if rc == 3:
                    m = re.search(r'^VIOL (\d+) (\S+) (\w+) (.*)', out, re.M)
                    found.append((0, int(m.group(1)), m.group(2), m.group(3), None))
                elif rc == 5:
                    found.append((2, 0, 'NONDET ' + out[-500:], '', None))
                elif rc in INTERNAL or rc in (-9, 'killed'):
                    found.append((3, 0, 'simulator error %s %s' % (rc, open(pre + '.err').read()[-500:]), '', None))
                else:
                    found.append((1, 0, None, '', open(pre + '.cur').read()))
            found.sort(key=lambda x: x[:2])
            rank, idx, cls, h, text = found[0]
            if rank >= 2:
                raise CheckError(cls)
            if rank == 0:
                rc, text, err = sim_run(exe, ['gen', world, str(seed), str(idx)], 60)
                if rc != 0:
                    raise CheckError('cannot regenerate run %d: %s' % (idx, err))
            viol = report(exe, prop, world, seed, idx, text, cls, h, work)
            break
    cov = dict(evaluations=tot['runs'], distinct_nontrivial=len(distinct), rule=P['rule'], samples=samples[:6],
               simulated_runs=tot['runs'], runs_per_hour=int(tot['runs'] * 3600 / max(batch_seconds, 0.001)),
               seeds_per_hour=int(tot['runs'] * 3600 / max(batch_seconds, 0.001)),
               reexecuted_for_determinism=tot['rechecked'], simulated_steps=tot['steps'],
               simulated_seconds=tot['sim_us'] / 1e6, faults_fired=dict(sorted(faults.items())),
               rare_conditions_hit=dict(sorted(probes.items())), operations=dict(sorted(ops.items())),
               distinct_schedules=len(inter), schedule_measure=P['measure'], parts=parts,
               conditions_not_reached=[k for k in P.get('need', []) if not (faults.get(k) or probes.get(k))],
               real_components=P['real'], stub_components=P['stub'])
    return cov, viol


def check(prop):
    t0 = time.time()
    P = PROPS[prop]
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    tier = 'thorough' if os.environ.get('VERIF_TIER') == 'thorough' else 'quick'
    print('property %s, seed %d, tier %s' % (prop, seed, tier), flush=True)
    cov, viol = run_parts(prop, P, seed, tier, t0)
    ev = dict(property=prop, tier=tier, seed=seed, level='exploration', coverage=cov, assumptions=P['assumptions'],
              wall_s=round(time.time() - t0, 2), violations=1 if viol else 0)
    os.makedirs(VERIF + '/evidence', exist_ok=True)
    with open('%s/evidence/%s.json' % (VERIF, prop), 'w') as f:
        json.dump(ev, f, indent=1)
    print('%d runs, %d distinct, %d schedules, %.1f s' % (cov['evaluations'], cov['distinct_nontrivial'], cov['distinct_schedules'], time.time() - t0))
    if viol:
        print('VIOLATION property=%s replay=%s' % (prop, viol), flush=True)
        return 1
    if not cov['evaluations']:
        raise CheckError('no run was made')
    for k in cov['conditions_not_reached']:
        # not an answer about the property: other code may have no such place
        print('NOTE: the workload never reached "%s" on this tree' % k)
        if os.environ.get('SIM_STRICT'):
            return 2
    return 0


def do_replay(path):
    t = open(path).read()
    w = re.search(r'^world (\S+)', t, re.M).group(1)
    kind = [p['kind'] for P in PROPS.values() for p in P['parts'] if p['world'] == w][0]
    exe = simbuild.build('replay_' + kind, kind)
    a, b = replay(exe, path), replay(exe, path)
    print(a)
    if a[:2] != b[:2]:
        print('the two replays differ')
        return 2
    return 1 if a[0] else 0


def determinism(n):
    bad = 0
    exes = {}
    for prop, P in sorted(PROPS.items()):
        for part in P['parts']:
            k = part['kind']
            if k not in exes:
                exes[k] = simbuild.build('det_' + k, k)
            work = os.path.dirname(exes[k])

            def one(seed):
                rc, out, err = sim_run(exes[k], ['gen', part['world'], str(seed), str(seed % 7)], 60)
                p = '%s/det_%s_%d.plan' % (work, part['world'], seed)
                open(p, 'w').write(out)
                r = replay(exes[k], p)
                os.unlink(p)
                return seed, r
            res = []
            for workers in (8, 3):
                with cf.ThreadPoolExecutor(workers) as ex:
                    res.append(dict(ex.map(one, range(1, n + 1))))
            diff = [s for s in res[0] if res[0][s] != res[1][s]]
            viol = [s for s in res[0] if res[0][s][0]]
            print('%s %s: %d seeds twice in fresh processes, %d differ, %d violations' % (prop, part['world'], n, len(diff), len(viol)), flush=True)
            bad += len(diff) + len(viol)
    return 1 if bad else 0


def main(argv):
    try:
        if len(argv) >= 3 and argv[1] == 'replay':
            return do_replay(argv[2])
        if len(argv) >= 2 and argv[1] == 'setup':
            simbuild.run(['g++', '--version'])
            simbuild.run(['objcopy', '--version'])
            print('tool chain present')
            return 0
        if len(argv) >= 2 and argv[1] == 'determinism':
            return determinism(int(argv[2]) if len(argv) > 2 else 40)
        if len(argv) == 2 and argv[1] in PROPS:
            return check(argv[1])
        print(__doc__)
        return 2
    except (CheckError, simbuild.BuildError) as e:
        print('ERROR: %s' % e)
        return 2
