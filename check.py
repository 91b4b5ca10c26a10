#!/usr/bin/env python3
"""check.py <property id> [quick|thorough] [-k substring]

Decides one property by symbolic execution of the code rustc generates from
/repo's current tree: compiles the harness crate (path dependency on /repo) to
one LLVM module, executes every harness in it with engine/sx (every branch on
symbolic data is decided by Z3, every feasible outcome is explored), replays
counterexamples natively, and writes evidence/<id>.json.

exit 0  holds within the bounds     exit 1  VIOLATION (replayed natively)
exit 2  no verdict (build, time, memory, engine limits, vacuous harness)
"""
import glob, json, os, re, resource, shutil, signal, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.abspath(__file__))
ENV = dict(os.environ, CARGO_NET_OFFLINE='true', CARGO_INCREMENTAL='0')
ENV.pop('RUSTFLAGS', None)
IRFLAGS = ('--cfg symex -C save-temps -C no-vectorize-loops -C no-vectorize-slp '
           '-C link-arg=-Wl,--unresolved-symbols=ignore-all')


class Problem(Exception):
    pass


def run(cmd, **kw):
    p = subprocess.run(cmd, text=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, errors='replace', **kw)
    if p.returncode:
        raise Problem('%s failed\n%s' % (' '.join(cmd[:4]), p.stdout[-3000:]))
    return p.stdout


def harnesses(pid, tier):
    """Harnesses of a property with the bounds and options written above them
    and the reachability witnesses written inside them."""
    m = pid.lower()
    res, opts, bounds, cur = [], {}, [], None
    for line in open(os.path.join(VERIF, 'harness', 'src', m + '.rs')):
        t = line.strip()
        h = re.match(r'(%s_\w+) \{$' % m, t)
        if t.startswith('// @opts '):
            opts = json.loads(t[9:])
        elif t.startswith('// @bound '):
            bounds.append(t[10:])
        elif h:
            cur = dict(name=h.group(1), opts=opts, bounds=bounds, need=['end of harness'])
            res.append(cur)
            opts, bounds = {}, []
        elif cur:
            for w in re.findall(r'witness!\((?:.*, )?"([^"]*)"\)', t):
                if w not in cur['need']:
                    cur['need'].append(w)
    return [h for h in res if tier == 'thorough' or not h['name'].endswith('_t')]


def known_findings(pid):
    res = []
    try:
        for line in open(os.path.join(VERIF, 'known_findings.txt')):
            m = re.match(r'finding: property=(\S+) harness=(\S+) assertion="(.*?)" (.*)$', line)
            if m and m.group(1) == pid:
                res.append(dict(harness=m.group(2), assertion=m.group(3), what=m.group(4)))
    except FileNotFoundError:
        pass
    return res


class Build:
    def __init__(self, pid, scratch):
        self.pid, self.scratch = pid, scratch
        self.sx, self.ll = os.path.join(scratch, 'sx'), os.path.join(scratch, 'm.ll')
        self.native = None

    def engine(self):
        run(['g++', '-std=c++17', '-O2', '-o', self.sx, os.path.join(VERIF, 'engine', 'sx.cpp'), '-lz3'])

    def module(self):
        target = os.path.join(self.scratch, 'ir')
        run(['cargo', 'build', '--release', '--offline', '--quiet', '--features', self.pid.lower(), '--target-dir', target],
            cwd=os.path.join(VERIF, 'harness'), env=dict(ENV, RUSTFLAGS=IRFLAGS))
        bc = [f for f in glob.glob(os.path.join(target, 'release', 'deps', 'amqp_verify.*-cgu.0.rcgu.bc')) if '.lto.' not in f]
        if len(bc) != 1:
            raise Problem('expected one bitcode module, found %s' % bc)
        sysroot = run(['rustc', '--print', 'sysroot'], cwd=os.path.join(VERIF, 'harness')).strip()
        run([glob.glob(os.path.join(sysroot, 'lib', 'rustlib', '*', 'bin', 'llvm-dis'))[0], bc[0], '-o', self.ll])
        shutil.rmtree(target, ignore_errors=True)

    def all(self):
        t = time.time()
        with ThreadPoolExecutor(2) as ex:
            for f in [ex.submit(self.engine), ex.submit(self.module)]:
                f.result()
        return time.time() - t

    def replay(self, name, path):
        """Run a harness natively on recorded inputs -> (fails, notes)"""
        if self.native is None:
            self.native = []
            d = os.path.join(self.scratch, 'native')
            for prof in ([], ['--release']):
                run(['cargo', 'build', '--offline', '--quiet', '--features', self.pid.lower(), '--target-dir', d] + prof,
                    cwd=os.path.join(VERIF, 'replay'), env=ENV)
                self.native.append(os.path.join(d, 'release' if prof else 'debug', 'replay'))
        notes, hit = [], False
        for b in self.native:
            kind = os.path.basename(os.path.dirname(b))
            try:
                p = subprocess.run(['bash', '-c', 'ulimit -v 8000000; ulimit -s 16384; exec "$0" "$@"', b, name, path],
                                   text=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=30, errors='replace')
                rc, out = p.returncode, p.stdout
            except subprocess.TimeoutExpired:
                rc, out = 'does not end', ''
            hit = hit or rc not in (0, 3)
            last = [l for l in out.splitlines() if re.search('panicked|assert|overflow|passes|outside|memory', l)]
            notes.append('%s build: exit %s %s' % (kind, rc, ' | '.join(last)[:300]))
        return hit, notes


STOPPED = 'stopped after a violation elsewhere'


class Stop:
    """Once a violation is found, the other runs are given this long to end."""
    GRACE = 30

    def __init__(self, grace):
        self.at, self.grace = None, grace

    def found(self):
        self.at = self.at or time.time()

    def now(self):
        return self.at is not None and time.time() - self.at > self.GRACE


def execute(b, h, shard, limit, stop):
    cmd = [b.sx, b.ll, 'sx_' + h['name'], '--time', '%.0f' % limit]
    if shard is not None:
        cmd += ['--shard', str(shard), '--shards', str(h['opts']['shards'])]
    if 'keep' in h['opts']:
        cmd += ['--keep', str(h['opts']['keep'])]
    if stop.grace:
        cmd += ['--grace', str(stop.GRACE)]
    mem = h['opts'].get('mem_gb', 6)
    pre = lambda: (resource.setrlimit(resource.RLIMIT_AS, (mem << 30, mem << 30)),
                   resource.setrlimit(resource.RLIMIT_STACK, (256 << 20, 256 << 20)))
    t0 = time.time()
    p = None
    if stop.now():
        why = STOPPED
    else:
        p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors='replace', preexec_fn=pre)
        while True:
            try:
                out, err = p.communicate(timeout=2)
                break
            except subprocess.TimeoutExpired:
                if stop.now() or time.time() - t0 > limit + 60:
                    p.kill()
        why = STOPPED if stop.now() else 'engine did not stop' if time.time() - t0 > limit + 60 else None
        try:
            return json.loads(out)
        except ValueError:
            why = why or 'engine ended with %s %s' % (p.returncode, err[-200:])
    return dict(paths=0, infeasible=0, forks=0, steps=0, queries=0, sat=0, cached=0, tabled=0, solver_s=0, wall_s=time.time() - t0, pending=0,
                mem_mb=0, failures=[], samples=[], incomplete=[dict(why=why, n=1)], witnesses=[], functions=[])


def decide(pid, tier, seed, hs, scratch, t0, budget):
    b = Build(pid, scratch)
    build_s = b.all()
    left = lambda: budget - (time.time() - t0)
    known, stop = known_findings(pid), Stop(tier == 'quick')

    is_known = lambda h, msg: [k for k in known if k['harness'] == h['name'] and k['assertion'] in msg]

    def one(job):
        h, shard = job
        limit = min(h['opts'].get('timeout', 500 if tier == 'quick' else 4 * 3600), left() - 60)
        r = execute(b, h, shard, max(limit, 5), stop)
        if tier == 'quick' and any(not is_known(h, f['msg']) for f in r['failures']):
            stop.found()
        print('  %-34s %5d paths %6d queries %6.1fs %4dMB%s%s' % (
            h['name'] + ('' if shard is None else '#%d' % shard), r['paths'], r['queries'], r['wall_s'], r['mem_mb'],
            ''.join(' FAIL ' + f['msg'] for f in r['failures']),
            ''.join(' INCOMPLETE %s x%d' % (i['why'], i['n']) for i in r['incomplete'])), flush=True)
        return h['name'], r

    jobs = []
    for h in hs:
        n = h['opts'].get('shards')
        jobs += [(h, i) for i in range(n)] if n else [(h, None)]
    # in turn a part of every harness, so that one that is hard to decide does not hold up the others
    weight = lambda j: j[0]['opts'].get('weight', 1)
    jobs.sort(key=lambda j: (j[1], -weight(j)) if j[1] else (0, weight(j)))
    with ThreadPoolExecutor(int(os.environ.get('VERIF_JOBS', '8'))) as ex:
        done = list(ex.map(one, jobs))

    violations, silenced, problems, rows = [], [], [], []
    rdir = os.path.join(VERIF, 'evidence', 'replay')
    compared = 0
    for h in hs:
        rs = [r for n, r in done if n == h['name']]
        add = lambda k: sum(r[k] for r in rs)
        fails, wit, funcs = [], set(), set()
        for r in rs:
            wit |= set(r['witnesses'])
            funcs |= set(r['functions'])
            for i in r['incomplete']:
                problems.append('%s: %s (%d paths)' % (h['name'], i['why'], i['n']))
            for f in r['failures']:
                if f['msg'] not in [x['msg'] for x in fails]:
                    fails.append(f)
        missed = [w for w in h['need'] if w not in wit]
        if missed and not fails:
            problems.append('%s: vacuous, not reached: %s' % (h['name'], missed))
        rows.append(dict(name=h['name'], bounds=h['bounds'], runs=len(rs), paths_completed=add('paths'),
                         branches_with_both_outcomes_feasible=add('forks'), instructions=add('steps'),
                         solver_queries=add('queries'), satisfiable=add('sat'), answered_from_cache=add('cached'), hash_terms_decided_by_evaluation=add('tabled'),
                         solver_s=round(add('solver_s'), 2), wall_s=round(add('wall_s'), 2),
                         peak_mb=max(r['mem_mb'] for r in rs), witnesses_reached=sorted(wit), witnesses_missed=missed,
                         failed=[f['msg'] for f in fails], functions=sorted(funcs),
                         sample_inputs=[s[:64] for r in rs for s in r['samples']][:3]))
        tries = [(f['msg'], f['draws']) for f in fails[:3]]
        for msg, vals in tries:
            k = is_known(h, msg)
            if len(violations) >= 4 and not k:
                continue
            os.makedirs(rdir, exist_ok=True)
            path = os.path.join(rdir, '%s.%d.values' % (h['name'], len(violations)))
            write_values(path, pid, h['name'], msg, vals)
            hit, notes = b.replay(h['name'], path)
            if not hit:
                problems.append('%s: %s: counterexample does not reproduce natively %s %s' % (h['name'], msg, vals[:40], notes))
            elif k:
                silenced.append(k[0])
            else:
                violations.append(dict(harness=h['name'], assertion=msg, values=vals, replay=path, native=notes))
        if tier == 'thorough' and not fails:
            # the engine's completed paths must also complete natively
            for r in rs:
                for s in r['samples']:
                    path = os.path.join(scratch, 'sample.values')
                    write_values(path, pid, h['name'], 'completed path', s)
                    hit, notes = b.replay(h['name'], path)
                    compared += 1
                    if hit:
                        problems.append('%s: native run of a completed path fails %s %s' % (h['name'], s[:40], notes))

    for k in silenced:
        print('KNOWN-FINDING: property=%s %s' % (pid, k['what']))
    for v in violations:
        print('  counterexample in %s: %s\n  drawn values: %s\n  native: %s' % (v['harness'], v['assertion'], v['values'][:80], '; '.join(v['native'])))
        print('VIOLATION property=%s replay=%s' % (pid, v['replay']))
    for p in problems:
        print('NO VERDICT property=%s: %s' % (pid, p))

    total = lambda k: sum(r[k] for r in rows)
    funcs = sorted(set(f for r in rows for f in r.pop('functions')))
    try:
        funcs = sorted(set(subprocess.run(['c++filt'], input='\n'.join(funcs), text=True, stdout=subprocess.PIPE).stdout.split('\n')))
    except OSError:
        pass
    target = [f for f in funcs if 'amqp_codec' in f]
    ev = dict(
        property=pid, tier=tier, seed=seed, level='other',
        coverage=dict(
            explanation='Symbolic execution of the LLVM code rustc generates from /repo at this run (real dependencies, no models). '
                        'Inputs are SMT bit-vector variables; every branch, address and assertion that depends on them is decided by Z3 and '
                        'all feasible outcomes are explored, so each assertion (and absence of panics, overflow, invalid memory access and '
                        'non-termination) holds for every input within the bounds of each harness. Counterexamples are replayed natively.',
            exhaustive=not problems, harnesses=rows, functions_encoded=target, functions_encoded_count=len(target),
            dependency_functions_executed=len(funcs) - len(target),
            paths=total('paths_completed'), queries=total('solver_queries'), queries_satisfiable=total('satisfiable'),
            solver_s=round(total('solver_s'), 2), instructions=total('instructions'), build_s=round(build_s, 2),
            sample_paths_compared_natively=compared, known_findings=[k['what'] for k in silenced], violations=violations,
            no_verdict=problems, samples=[dict(harness=r['name'], drawn_values=r['sample_inputs']) for r in rows[:6]]),
        assumptions=['the bounds listed per harness', 'the executor (/verif/engine) and Z3; the code is compiled with overflow checks '
                     'and debug assertions for x86-64', 'heap allocation never fails'],
        wall_s=round(time.time() - t0, 2), violations=len(violations))
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    with open(os.path.join(VERIF, 'evidence', pid + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    print('%s %s: %d harnesses, %d paths, %d queries, %d violations, %d without verdict, %.0fs' % (
        pid, tier, len(hs), total('paths_completed'), total('solver_queries'), len(violations), len(problems), time.time() - t0))
    if violations:
        return 1
    return 2 if problems else 0


def write_values(path, pid, name, msg, vals):
    with open(path, 'w') as f:
        f.write('# %s: %s\n# cd %s/replay && cargo run --offline --features %s -- %s %s\n' % (pid, msg, VERIF, pid.lower(), name, path))
        f.write(''.join('%d\n' % v for v in vals))


def setup():
    """The term simplifier against plain bit-vector semantics on random terms."""
    with tempfile.TemporaryDirectory(prefix='amqp-verify-') as d:
        t = os.path.join(d, 'selftest')
        run(['g++', '-std=c++17', '-O1', '-o', t, os.path.join(VERIF, 'engine', 'selftest.cpp'), '-lz3'])
        print(run([t, '200000', os.environ.get('VERIF_SEED', '1')]).strip().split('\n')[-1])


def main():
    args = sys.argv[1:]
    if args == ['setup']:
        return setup()
    only = None
    if '-k' in args:
        i = args.index('-k')
        only = args[i + 1]
        del args[i:i + 2]
    pid = args[0]
    tier = args[1] if len(args) > 1 else os.environ.get('VERIF_TIER') or 'quick'
    seed = int(os.environ.get('VERIF_SEED') or 1)
    budget = float(os.environ.get('VERIF_BUDGET', 860 if tier == 'quick' else 10 * 3600))
    t0 = time.time()
    hs = [h for h in harnesses(pid, 'thorough' if only else tier) if not only or only in h['name']]
    scratch = tempfile.mkdtemp(prefix='amqp-verify-%s-' % pid)
    signal.signal(signal.SIGTERM, lambda *a: sys.exit(2))
    rc = 2
    try:
        rc = decide(pid, tier, seed, hs, scratch, t0, budget)
    except Problem as e:
        print('NO VERDICT property=%s: %s' % (pid, e))
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    sys.stdout.flush()
    sys.exit(rc)


if __name__ == '__main__':
    main()
