"""Shared machinery of the checks: run TLC / Quint, build and run the Go
harnesses against /repo's working tree, write evidence, print the verdict."""
import glob, json, os, random, re, resource, shutil, subprocess, sys, tempfile, time
from shapes import Names

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = '/repo'
SPEC = os.path.join(VERIF, 'spec')
HARNESS = os.path.join(VERIF, 'harness')
SEED = int(os.environ.get('VERIF_SEED', '1') or '1')
TIER = os.environ.get('VERIF_TIER', 'quick') or 'quick'
THOROUGH = TIER == 'thorough'
JARS = '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar'


class Decided(Exception):
    """A violation has been found: nothing that follows can change the verdict."""


class CheckError(Exception):
    """The check itself could not give a verdict (never reported as a violation)."""


def go_env(extra=None):
    env = dict(os.environ)
    env.update(HOME='/root', GOTOOLCHAIN='local', GOPROXY='off', GOWORK='off', CGO_ENABLED='1',
               GOMODCACHE='/root/go/pkg/mod', GOCACHE=os.environ.get('VERIF_GOCACHE', '/root/.cache/go-build'),
               GOFLAGS='-mod=readonly -buildvcs=false')
    env['PATH'] = '/opt/veriftools/go1.27.3/bin:' + env.get('PATH', '')
    env['VERIF_SEED'] = str(SEED)
    env['VERIF_TIER'] = TIER
    if extra:
        env.update(extra)
    return env


def code_frame(stack):
    """Whether the innermost frame below /repo of the first goroutine with one is of the code under test."""
    for line in stack.split('\n'):
        x = re.match(r'\s+(/\S+\.go):\d+', line)
        if x and (x.group(1).startswith(REPO + '/') or 'zz_verif' in x.group(1)):
            return 'zz_verif' not in x.group(1)
    return False


class Check:
    def __init__(self, pid, level='model_checking'):
        self.pid = pid
        self.level = level
        self.t0 = time.time()
        self.work = tempfile.mkdtemp(prefix='verif-%s-' % pid)
        self.rng = random.Random(SEED * 7919 + 13)
        self.states = 0
        self.transitions = 0
        self.traces = 0
        self.evaluations = 0
        self.distinct = 0
        self.samples = []
        self.cov = {}
        self.assumptions = []
        self.violations = []
        self.spec_runs = []
        self.n = 0

    # ---------------------------------------------------------------- TLC
    def tlc(self, module, cfg=None, env=None, workers=1, timeout=600, simulate=None, depth=None,
            extra=(), heap='6g', expect_violation=False, consts=None):
        """Run TLC on spec/<module>.tla; returns dict(out, states, distinct, emitted)."""
        self.n += 1
        d = os.path.join(self.work, 'tlc%d' % self.n)
        shutil.copytree(SPEC, d)
        cfg = cfg or module + '.cfg'
        if consts:
            body = open(os.path.join(d, cfg)).read()
            for k, v in consts.items():
                body, c = re.subn(r'(?m)^(\s*(?:CONSTANTS?\s+)?%s\s*=\s*).*$' % re.escape(k), lambda m: m.group(1) + str(v), body)
                if not c:
                    body += '\nCONSTANT %s = %s\n' % (k, v)
            open(os.path.join(d, cfg), 'w').write(body)
        cmd = ['java', '-XX:+UseParallelGC', '-Xmx' + heap, '-Xss512m', '-Dtlc2.tool.impl.Tool.cdot=true', '-cp', JARS, 'tlc2.TLC',
               '-config', cfg, '-metadir', os.path.join(d, 'states'), '-workers', str(workers),
               '-noGenerateSpecTE', '-nowarning', '-seed', str(SEED)]
        if simulate is not None:
            cmd += ['-simulate', 'num=%d' % simulate]
        if depth is not None:
            cmd += ['-depth', str(depth)]
        cmd += list(extra)
        cmd += [module + '.tla']
        e = dict(os.environ)
        e['VERIF_SEED'] = str(SEED)
        e['VERIF_TIER'] = TIER
        if env:
            e.update({k: str(v) for k, v in env.items()})
        t = time.time()
        try:
            r = subprocess.run(cmd, cwd=d, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                               timeout=timeout, text=True, errors='replace')
        except subprocess.TimeoutExpired:
            raise CheckError('TLC on %s/%s timed out after %ds' % (module, cfg, timeout))
        out = r.stdout
        m = re.findall(r'([\d,]+) states generated, ([\d,]+) distinct states found', out[-5000:])
        gen = dist = 0
        if m:
            gen, dist = (int(x.replace(',', '')) for x in m[-1])
        m2 = re.findall(r'The number of states generated: ([\d,]+)', out)
        if simulate is not None and m2:
            gen = int(m2[-1].replace(',', ''))
            dist = gen
        ok = 'Model checking completed. No error has been found.' in out or (simulate is not None and 'Error:' not in out)
        if not ok and not expect_violation:
            tail = '\n'.join(l for l in out.splitlines() if not l.startswith('"{'))[-3000:]
            raise CheckError('TLC on %s/%s failed (rc %d):\n%s' % (module, cfg, r.returncode, tail))
        emitted = []
        for l in out.splitlines():
            if l.startswith('"{') or l.startswith('"['):
                try:
                    emitted.append(json.loads(json.loads(l)))
                except ValueError:
                    raise CheckError('unreadable line from TLC: ' + l[:200])
        self.states += dist
        self.transitions += gen
        self.spec_runs.append(dict(module=module, cfg=cfg, states_generated=gen, distinct_states=dist,
                                   wall_s=round(time.time() - t, 2)))
        res = dict(out=out, generated=gen, distinct=dist, emitted=emitted, dir=d, ok=ok)
        return res

    # -------------------------------------------------------------- Quint
    def quint_par(self, procs, module, main, n_traces, max_steps, invariant=None, timeout=300):
        """The same as quint, n_traces in each of some processes with seeds of their own."""
        from concurrent.futures import ThreadPoolExecutor
        base = self.n
        self.n += procs
        with ThreadPoolExecutor(procs) as ex:
            rs = list(ex.map(lambda i: self.quint(module, main, n_traces, max_steps, invariant, timeout, seed=SEED * 1000 + i, no=base + i + 1), range(procs)))
        return [t for r in rs for t in r]

    def quint(self, module, main, n_traces, max_steps, invariant=None, timeout=300, extra=(), seed=None, no=None):
        """quint run --mbt; returns the list of traces (lists of decoded states)."""
        if no is None:
            self.n += 1
            no = self.n
        d = os.path.join(self.work, 'quint%d' % no)
        shutil.copytree(SPEC, d)
        cmd = ['quint', 'run', '--main', main, '--max-samples', str(n_traces), '--n-traces', str(n_traces),
               '--max-steps', str(max_steps), '--mbt', '--out-itf', 'o_{seq}.itf.json', '--seed', hex(SEED if seed is None else seed),
               '--verbosity', '1']
        if invariant:
            cmd += ['--invariant', invariant]
        cmd += list(extra) + [module + '.qnt']
        t = time.time()
        try:
            r = subprocess.run(cmd, cwd=d, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, text=True)
        except subprocess.TimeoutExpired:
            raise CheckError('quint on %s timed out' % module)
        files = sorted(glob.glob(os.path.join(d, 'o_*.itf.json')))
        if r.returncode != 0 or not files:
            raise CheckError('quint on %s failed (rc %d): %s' % (module, r.returncode, r.stdout[-2000:]))
        traces = []
        n = 0
        for f in files:
            o = json.load(open(f))
            st = [decode_itf(s) for s in o['states']]
            n += len(st)
            traces.append(st)
        self.states += n
        self.transitions += n - len(traces)
        self.spec_runs.append(dict(module=module, main=main, traces=len(traces), states=n, wall_s=round(time.time() - t, 2)))
        return traces

    # ----------------------------------------------------------------- Go
    def go_build(self, pkg, files, race=False, name=None, optional=()):
        """go test -c with the harness files overlaid; returns the binary path.
        `optional` maps a harness file to a stub used when the tree does not
        compile with it (it touches unexported names a refactoring may rename)."""
        name = name or pkg.replace('/', '_')
        variants = [dict(optional)] if optional else [{}]
        if optional:
            variants.append(None)
        pkgname = package_name(pkg)
        last = ''
        for vi, var in enumerate(variants):
            repl = {}
            hd = os.path.join(self.work, 'h_%s_%d' % (name, vi))
            os.makedirs(hd, exist_ok=True)
            use = list(files)
            if optional:
                use += list(optional.keys()) if var is not None else list(optional.values())
            for f in use:
                src = open(os.path.join(HARNESS, f)).read()
                src = re.sub(r'(?m)^package \w+$', 'package ' + pkgname, src, count=1)
                base = 'zz_verif_' + os.path.basename(f).replace('.go', '') + '_test.go'
                dst = os.path.join(hd, base)
                open(dst, 'w').write(src)
                repl[os.path.join(REPO, pkg, base)] = dst
            # the repository's own tests do not take part
            ov = os.path.join(hd, 'overlay.json')
            for t in glob.glob(os.path.join(REPO, pkg, '*_test.go')):
                repl[t] = ''
            json.dump({'Replace': repl}, open(ov, 'w'))
            binp = os.path.join(self.work, name + ('.race' if race else '') + '.test')
            cmd = ['go', 'test', '-c', '-vet=off', '-overlay', ov, '-o', binp]
            if race:
                cmd.append('-race')
            elif os.environ.get('VERIF_COVER'):
                cmd += ['-cover', '-coverpkg=./...']
            cmd.append('./' + pkg)
            for again in range(8):
                r = subprocess.run(cmd, cwd=REPO, env=go_env(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=800)
                if r.returncode == 0:
                    break
                if not again:
                    cmd.insert(3, '-gcflags=-e')    # every error
                    self.names = getattr(self, 'names', None) or Names(REPO, go_env())
                elif not self.names.adapt(r.stdout, pkg, hd):
                    break
                else:
                    self.cov['adapted_names'] = True
            if r.returncode == 0:
                if var is None:
                    self.cov['degraded_observation'] = 'built without ' + ','.join(optional.keys())
                return binp
            last = r.stdout
        raise CheckError('harness for %s does not build:\n%s' % (pkg, last[-3000:]))

    def go_run(self, binary, test, cases=None, params=None, timeout=600, crash_is_violation=True, env=None, shards=1, memory=8, prefix=()):
        """Run one harness test, optionally sharded over processes."""
        procs = []
        self.n += 1
        base = os.path.join(self.work, 'run%d' % self.n)
        if cases is not None:
            cases = list(cases)
            shards = max(1, min(shards, len(cases)))
        t = time.time()
        json.dump(params or {}, open(base + '.params.json', 'w'))
        for s in range(shards):
            d = '%s_%d' % (base, s)
            os.makedirs(os.path.join(d, 'cwd'))
            inp, out, cur = (os.path.join(d, x) for x in ('in.ndjson', 'out.json', 'cur.json'))
            with open(inp, 'w') as f:
                if cases is not None:
                    for c in cases[s::shards]:
                        f.write(json.dumps(c) + '\n')
            e = go_env(dict(VERIF_IN=inp, VERIF_OUT=out, VERIF_CUR=cur, VERIF_SHARD=str(s), VERIF_SHARDS=str(shards),
                            VERIF_PARAMS=json.dumps(params or {}) if len(json.dumps(params or {})) < 100000 else '{}', VERIF_FIXTURES=REPO, GODEBUG='asynctimerchan=0'))
            e['VERIF_PARAMS_FILE'] = base + '.params.json'
            e['VERIF_HANG'] = str(min(timeout - 10, 700 if THOROUGH else 150))
            if env:
                e.update(env)
            log = open(os.path.join(d, 'log'), 'w')
            limit = None
            if 'race' not in os.path.basename(binary):
                limit = lambda: resource.setrlimit(resource.RLIMIT_AS, (memory << 30, memory << 30))
            args = list(prefix) + [binary, '-test.run', '^%s$' % test, '-test.timeout', '%ds' % timeout, '-test.count=1']
            if os.environ.get('VERIF_COVER') and limit:
                args.append('-test.coverprofile=%s/%s-%s-%d-%d' % (os.environ['VERIF_COVER'], self.pid, test, self.n, s))
            p = subprocess.Popen(args,
                                 cwd=os.path.join(d, 'cwd'), env=e, stdout=log, stderr=subprocess.STDOUT, preexec_fn=limit)
            procs.append((p, d, out, cur, log))
        res = dict(evaluated=0, distinct=0, traces=0, extra={})
        crashed = []
        for p, d, out, cur, log in procs:
            try:
                p.wait(timeout=timeout + 60)
            except subprocess.TimeoutExpired:
                p.kill()
                p.wait()
            log.close()
            txt = open(os.path.join(d, 'log'), errors='replace').read()
            if os.path.exists(out):
                o = json.load(open(out))
                for k in ('evaluated', 'distinct', 'traces'):
                    res[k] += o.get(k, 0)
                for k, v in (o.get('extra') or {}).items():
                    if isinstance(v, (int, float)) and not isinstance(v, bool):
                        res['extra'][k] = res['extra'].get(k, 0) + v
                    elif isinstance(v, list):
                        res['extra'].setdefault(k, []).extend(v)
                    else:
                        res['extra'][k] = v
                for s in (o.get('samples') or [])[:3]:
                    if len(self.samples) < 8:
                        self.samples.append(s)
                for v in o.get('violations') or []:
                    self.violations.append(v)
                if o.get('error'):
                    raise CheckError('harness %s: %s' % (test, o['error']))
            if 'WARNING: DATA RACE' in txt:
                i = txt.index('WARNING: DATA RACE')
                rep = txt[i:i + 3500]
                # only races whose reported accesses are in the code under test count
                if re.search(r'/repo/(?!\S*zz_verif)\S+\.go', rep):
                    self.violations.append(dict(key='data-race', what='data race in the code under test', case=rep))
                else:
                    raise CheckError('data race inside the harness:\n' + rep)
            elif p.returncode != 0 or not os.path.exists(out):
                crashed.append((p.returncode, txt, cur))
        for rc, txt, cur in crashed:
            case = open(cur, errors='replace').read() if os.path.exists(cur) else None
            m = re.search(r'(?m)^(VERIF-HANG.*)$', txt) or re.search(r'(?m)^(panic: .*|fatal error: .*|runtime: out of memory.*)$', txt)
            hang = m and m.group(1).startswith('VERIF-HANG')
            if hang and any(code_frame(b) for b in txt[m.start():].split('\n\n')):
                self.violations.append(dict(key='hang', what='the code does not come back', case=dict(case=case, log=txt[m.start():m.start() + 6000])))
            elif crash_is_violation and m and not hang and 'test timed out' not in m.group(1) and code_frame(txt[m.start():]):
                self.violations.append(dict(key='crash', what='the process crashed: ' + m.group(1)[:300],
                                            case=dict(case=case, log=txt[m.start():m.start() + 3000])))
            elif not self.violations:   # a harness that has found something may end as it likes
                raise CheckError('harness %s ended with rc %s:\n%s' % (test, rc, txt[-3000:]))
        self.evaluations += res['evaluated']
        self.distinct += res['distinct']
        self.traces += res['traces']
        res['wall_s'] = round(time.time() - t, 2)
        self.cov.setdefault('harness_runs', []).append(dict(test=test, evaluated=res['evaluated'], traces=res['traces'],
                                                            wall_s=res['wall_s'], **res['extra']))
        known, _ = load_known(self.pid)
        if any(v.get('key', '') not in known for v in self.violations):
            raise Decided()
        return res

    # ------------------------------------------------------------ verdict
    def finish(self, exhaustive=None, rule=None):
        known, _ = load_known(self.pid)
        new, old = [], {}
        for v in self.violations:
            k = v.get('key', '')
            if k and k in known:
                old.setdefault(k, v)
            else:
                new.append(v)
        for k in old:
            print('KNOWN-FINDING: property=%s %s: %s' % (self.pid, k, known[k]))
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        cov = dict(states=self.states, transitions=self.transitions, traces_validated_against_impl=self.traces,
                   evaluations=self.evaluations, distinct_nontrivial=self.distinct,
                   samples=self.samples[:8], spec_runs=self.spec_runs)
        cov.update(self.cov)
        if rule:
            cov['rule'] = rule
        if exhaustive is not None:
            cov['exhaustive'] = exhaustive
        ev = dict(property=self.pid, tier=TIER, seed=SEED, level=self.level, coverage=cov,
                  assumptions=self.assumptions, wall_s=round(time.time() - self.t0, 2), violations=len(new))
        tmp = os.path.join(VERIF, 'evidence', '.%s.%d' % (self.pid, os.getpid()))
        json.dump(ev, open(tmp, 'w'), indent=1, default=str)
        os.replace(tmp, os.path.join(VERIF, 'evidence', self.pid + '.json'))
        if self.traces == 0 and not new:
            raise CheckError('nothing was replayed into the implementation')
        if new:
            rp = os.path.join(VERIF, 'evidence', '%s.replay.json' % self.pid)
            json.dump(dict(property=self.pid, seed=SEED, tier=TIER, violations=new[:50]), open(rp, 'w'), indent=1, default=str)
            for v in new[:5]:
                print('  %s: %s' % (v.get('key', ''), v.get('what', '')))
            print('VIOLATION property=%s replay=%s' % (self.pid, rp))
            return 1
        print('OK property=%s states=%d transitions=%d traces=%d evaluations=%d wall=%.1fs' % (
            self.pid, self.states, self.transitions, self.traces, self.evaluations, time.time() - self.t0))
        return 0

    def close(self):
        if os.environ.get('VERIF_KEEP'):
            print('work dir kept: ' + self.work)
            return
        shutil.rmtree(self.work, ignore_errors=True)


def load_known(pid):
    known, fixed = {}, []
    p = os.path.join(VERIF, 'known_findings.txt')
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r'known: property=(\S+) key=(\S+) (.*)', l)
            if m and m.group(1) == pid:
                known[m.group(2)] = m.group(3).strip()
            if l.startswith('fixed: property=%s ' % pid):
                fixed.append(l.strip())
    return known, fixed


def package_name(pkg):
    for f in sorted(glob.glob(os.path.join(REPO, pkg, '*.go'))):
        if f.endswith('_test.go'):
            continue
        m = re.search(r'(?m)^package (\w+)', open(f).read())
        if m:
            return m.group(1)
    raise CheckError('no package in ' + pkg)


def decode_itf(v):
    if isinstance(v, dict):
        if '#bigint' in v:
            return int(v['#bigint'])
        if '#set' in v:
            return [decode_itf(x) for x in v['#set']]
        if '#map' in v:
            return {str(decode_itf(k)): decode_itf(x) for k, x in v['#map']}
        if '#tup' in v:
            return [decode_itf(x) for x in v['#tup']]
        return {k: decode_itf(x) for k, x in v.items() if not k.startswith('#')}
    if isinstance(v, list):
        return [decode_itf(x) for x in v]
    return v


def cover_paths(edges, init, rng, max_len=40, max_paths=None, key=None):
    """edges: list of (s, label, t) with hashable s, t.  Returns walks (lists of
    edge indexes) from init that together take every edge reachable from init."""
    out = {}
    for i, (s, _, t) in enumerate(edges):
        out.setdefault(s, []).append(i)
    for s in out:
        rng.shuffle(out[s])
    # shortest-path tree from init
    par = {init: None}
    q = [init]
    for s in q:
        for i in out.get(s, []):
            t = edges[i][2]
            if t not in par:
                par[t] = i
                q.append(t)
    todo = {s: list(es) for s, es in out.items() if s in par}
    left = sum(len(x) for x in todo.values())
    order = list(q)
    rng.shuffle(order)
    paths = []

    def prefix(s):
        p = []
        while par[s] is not None:
            i = par[s]
            p.append(i)
            s = edges[i][0]
        return p[::-1]
    oi = 0
    while left > 0:
        while not todo.get(order[oi]):
            oi += 1
        s = order[oi]
        path = prefix(s)
        while len(path) < max_len or not any(True for _ in [0]):
            if todo.get(s):
                i = todo[s].pop()
                left -= 1
            else:
                # step towards a neighbour that still has work
                cand = [i for i in out.get(s, []) if edges[i][2] != s and todo.get(edges[i][2])]
                if not cand:
                    break
                i = rng.choice(cand)
            path.append(i)
            s = edges[i][2]
        if len(path) <= len(prefix(order[oi])):
            # the prefix alone is longer than max_len: take one edge anyway
            i = todo[order[oi]].pop()
            left -= 1
            path.append(i)
        paths.append(path)
        if max_paths and len(paths) >= max_paths:
            break
    return paths, left


def main(registry):
    if len(sys.argv) != 2 or sys.argv[1] not in registry:
        print('usage: check.py <property>; known: ' + ' '.join(sorted(registry)))
        return 2
    pid = sys.argv[1]
    c = Check(pid)
    try:
        try:
            return registry[pid](c)
        except Decided:
            return c.finish(exhaustive=False, rule='ended at the first step that found a violation')
    except CheckError as e:
        print('CHECK-ERROR property=%s %s' % (pid, e))
        return 3
    finally:
        c.close()
