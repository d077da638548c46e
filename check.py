#!/usr/bin/env python3
"""Runs one property check:  python3 check.py C01

1. TLC explores <id>Gen.tla: checks the design invariants over all behaviours within the bounds
   and emits the behaviours as scenarios.
2. harness/<id>.py executes every scenario on the code in /repo through its public API and
   records what happened, with exact numbers.
3. TLC runs <id>Trace.tla: every recorded event is compared with what the specification says.

exit 0: held; exit 1: VIOLATION line; other: the machinery failed.
"""
import json, os, re, shutil, subprocess, sys, time

HERE = os.path.dirname(os.path.abspath(__file__))
TLA = '/opt/veriftools/tla'
PY = '/opt/venv/bin/python'
BUDGET = {'quick': 840, 'thorough': 840}
HARNESS = 500  # seconds for carrying out the scenarios


def log(*a):
    print(*a, flush=True)


class Machinery(Exception):
    pass


def tlc(module, work, env, workers, timeout, xmx='6g'):
    build = os.environ.get('VERIF_BUILD', os.path.join(HERE, 'build'))
    cp = f'{build}:{TLA}/tla2tools.jar:{TLA}/CommunityModules-deps.jar'
    meta = os.path.join(work, f'states-{module}')
    shutil.rmtree(meta, ignore_errors=True)
    cmd = ['java', '-Xss64m', f'-Xmx{xmx}', '-XX:+UseParallelGC', '-XX:ActiveProcessorCount=8',
           '-Djava.io.tmpdir=' + work,
           '-Dtlc2.overrides.TLCOverrides=tlc2.overrides.TLCOverrides:verif.NumOverrides',
           '-cp', cp, 'tlc2.TLC', '-config', f'{module}.cfg', '-metadir', meta,
           '-noGenerateSpecTE', '-workers', str(workers), '-lncheck', 'final', f'{module}.tla']
    t0 = time.time()
    out = os.path.join(work, f'{module}.out')
    with open(out, 'w') as f:
        try:
            r = subprocess.run(cmd, cwd=os.path.join(HERE, 'spec'), env=dict(os.environ, **env),
                               stdout=f, stderr=subprocess.STDOUT, timeout=timeout)
        except subprocess.TimeoutExpired:
            raise Machinery(f'TLC timed out on {module}')
    txt = open(out, errors='replace').read()
    shutil.rmtree(meta, ignore_errors=True)
    m = re.search(r'(\d+) states generated, (\d+) distinct states found, (\d+) states left', txt)
    st = dict(generated=int(m.group(1)), distinct=int(m.group(2))) if m else dict(generated=0, distinct=0)
    st['wall'] = round(time.time() - t0, 2)
    return r.returncode, txt, st


def tail(txt, n=40):
    return '\n'.join(x[:400] for x in txt.splitlines()[-n:])


def generate(cid, work, tier, seed, timeout):
    cfg = os.path.join(work, 'gencfg.json')
    json.dump(dict(seed=seed % 32749, tier=tier), open(cfg, 'w'))
    code, txt, st = tlc(f'{cid}Gen', work, dict(GENCFG=cfg), 8, timeout)
    if code != 0 or 'Model checking completed. No error' not in txt:
        raise Machinery(f'{cid}Gen failed (exit {code})\n' + tail(
            '\n'.join(l for l in txt.splitlines() if not l.startswith('"SCN'))))
    scn = []
    for line in txt.splitlines():
        if line.startswith('"SCN '):
            body = line[5:-1]
            body = re.sub(r'\\(.)', r'\1', body)
            scn.append(body)
    scn = sorted(set(scn))
    return [json.loads(s) for s in scn], st


def execute(cid, work, scn, env, timeout, procs):
    """Runs the scenarios on the implementation, in a few processes; merges the traces."""
    fout = os.path.join(work, 'trace.ndjson')
    e = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', JAX_PLATFORMS='cpu', TF_CPP_MIN_LOG_LEVEL='3',
             MPLBACKEND='Agg', PYTHONHASHSEED=os.environ.get('PYTHONHASHSEED', '0'), VERIF_WORK=work)
    e.update(env)
    procs = max(1, min(procs, len(scn)))
    if any('v' in s for s in scn):  # scenarios of one variety share compiled functions
        groups = {}
        for s in scn:
            groups.setdefault(json.dumps([s['v'], s.get('lay')] if 'v' in s else s, sort_keys=True), []).append(s)
        part = [[] for _ in range(procs)]
        for k in sorted(groups, key=lambda k: (-len(groups[k]), k)):
            min(part, key=len).extend(groups[k])
    else:
        part = [scn[i::procs] for i in range(procs)]
    t0, ps, died = time.time(), [], {}
    try:
        for i in range(procs):
            fin, fo, fs, fl = (os.path.join(work, x % i) for x in ('scn%d.json', 'trace%d.ndjson', 'stats%d.json', 'harness%d.out'))
            json.dump(part[i], open(fin, 'w'))
            ps.append((subprocess.Popen([PY, os.path.join(HERE, 'harness', 'run.py'), cid, fin, fo, fs], cwd=work, env=e,
                                        stdout=open(fl, 'w'), stderr=subprocess.STDOUT), fo, fs, fl))
        for p, fo, fs, fl in ps:
            try:
                code = p.wait(timeout=max(1, min(timeout, HARNESS) - (time.time() - t0)))
            except subprocess.TimeoutExpired:
                p.kill()
                code = f'no result within {HARNESS} s'
            if code != 0 or not os.path.exists(fs):
                died[fo] = code
                log(f'harness for {cid} stopped ({code})\n' + tail(open(fl, errors='replace').read(), 15))
    finally:
        for p, *_ in ps:
            if p.poll() is None:
                p.kill()
    st = dict(traces=0, events=0, ops={}, src=[], wall=time.time() - t0)
    with open(fout, 'w') as f:
        for k, (_, fo, fs, _) in enumerate(ps):
            lines = open(fo).read().splitlines(True) if os.path.exists(fo) else []
            srcs = [json.loads(x) for x in open(fo + '.src')] if lines else []
            lines = lines[:len(srcs)]
            if fo in died:
                at = open(fo + '.at').read() if os.path.exists(fo + '.at') else ''
                if not at:  # not even the first scenario was started: the module or harness does not load
                    raise Machinery(f'harness for {cid} failed ({died[fo]})')
                # a call that does not return, or ends the process, is an outcome of that scenario
                lines.append(json.dumps(dict(id=0, ev=[dict(op='failed', err=f'call did not return: {died[fo]}')])) + '\n')
                srcs.append(part[k][int(at)])
                s = dict(events=1 + sum(len(json.loads(x)['ev']) for x in lines[:-1]), ops={'failed': 1})
            else:
                s = json.load(open(fs))
            for line in lines:
                st['traces'] += 1
                head, rest = line.split(',', 1)
                assert head.startswith('{"id": ')
                f.write('{"id": %d,%s' % (st['traces'], rest))
            st['events'] += s['events']
            st['src'] += srcs
            for o, v in s['ops'].items():
                st['ops'][o] = st['ops'].get(o, 0) + v
    st['ops'] = dict(sorted(st['ops'].items()))
    return fout, st


def validate(cid, work, trace, timeout):
    code, txt, st = tlc(f'{cid}Trace', work, dict(TRACE=trace), 8, timeout, xmx='12g')
    if code == 0 and 'Model checking completed. No error' in txt:
        return None, st
    if 'Invariant Conforms is violated' in txt:
        m = re.findall(r'(tid|event|verdict) (?:\|->|=) ("(?:[^"\\]|\\.)*"|-?\d+)', txt)
        d = {}
        for k, v in m:
            d[k] = v.strip('"')
        return dict(tid=int(d.get('tid', 0)), event=int(d.get('event', 0)), verdict=d.get('verdict', '?')), st
    raise Machinery(f'{cid}Trace failed (exit {code})\n' + tail(txt))


def selftest(cid, work, trace, seed, timeout, terms=()):
    """The binding is live: corrupting one recorded number must be rejected."""
    import random
    rng = random.Random(seed)
    lines = open(trace).read().splitlines()
    tries = 0
    hit = 0
    for _ in range(3):
        line = None
        for _ in range(50):
            t = json.loads(rng.choice(lines))
            slots = []
            for i, e in enumerate(t['ev']):
                for k, v in e.items():
                    if isinstance(v, dict) and v.get('data') and v.get('err') == '' and v.get('kind') in ('c', 'f'):
                        slots.append((i, k))
                    if k in terms and v:
                        slots.append((i, k))
            if slots:
                i, k = rng.choice(slots)
                v = t['ev'][i][k]
                if k in terms:
                    rng.choice(v)['c'] = [[1, 12345, 7], [1, 99], [1, 3]]
                else:
                    v['data'][rng.randrange(len(v['data']))] = [[1, 12345, 7], [1, 99], [1, 3]]
                line = json.dumps(t)
                break
        if line is None:
            continue
        tries += 1
        bad = os.path.join(work, 'corrupt.ndjson')
        open(bad, 'w').write(line + '\n')
        v, _ = validate(cid, work, bad, timeout)
        hit += v is not None
        os.remove(bad)
    return tries, hit


def main():
    cid = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1'))
    work = os.path.join(HERE, 'work', cid)
    shutil.rmtree(work, ignore_errors=True)
    os.makedirs(work)
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    t0 = time.time()
    left = lambda: max(20, BUDGET[tier] - (time.time() - t0))
    meta = json.load(open(os.path.join(HERE, 'checks.json')))[cid]
    try:
        subprocess.run(['bash', os.path.join(HERE, 'build.sh')], check=True, timeout=300)
        scn, gst = generate(cid, work, tier, seed, left())
        if not scn:
            raise Machinery('no scenarios generated')
        log(f'{cid}: {len(scn)} scenarios from {gst["distinct"]} specification states ({gst["wall"]} s)')
        trace, stats = execute(cid, work, scn, dict(VERIF_TIER=tier, VERIF_SEED=str(seed)), left(), meta.get('procs', 6))
        log(f'{cid}: {stats["traces"]} traces, {stats["events"]} events recorded ({stats["wall"]:.1f} s) {stats["ops"]}')
        bad, tst = validate(cid, work, trace, left())
        missing = [o for o in meta.get('must_cover', []) if not any(k == o or k.startswith(o + '/') for k in stats['ops'])]
        if missing and bad is None:
            raise Machinery(f'no events recorded for {missing}')
        expect = stats['events'] + stats['traces']
        if bad is None and tst['distinct'] != expect:
            raise Machinery(f'trace validation visited {tst["distinct"]} states, expected {expect}')
        log(f'{cid}: trace validation {tst["distinct"]} states ({tst["wall"]} s)')
        st = (0, 0)
        if bad is None and tier == 'thorough':
            st = selftest(cid, work, trace, seed, left(), meta.get('terms', ()))
            if st[0] != st[1]:
                raise Machinery(f'self test: {st[0] - st[1]} of {st[0]} corrupted traces were accepted')
    except Machinery as e:
        log(f'CHECK-ERROR {cid}: {e}')
        sys.exit(2)
    known = []
    kf = os.path.join(HERE, 'known_findings.txt')
    if os.path.exists(kf):
        for line in open(kf):
            m = re.match(r'known: property=(\S+) (.*)', line.strip())
            if m and m.group(1) == cid:
                known.append(m.group(2))
    for k in known:
        log(f'KNOWN-FINDING: property={cid} {k}')
    lines = open(trace).read().splitlines()
    sample = []
    for ln in lines[:: max(1, len(lines) // 3)][:3]:
        t = json.loads(ln)
        sample.append(dict(id=t['id'], scenario=(stats['src'][t['id'] - 1]), first_event={
            k: (v if not isinstance(v, (list, dict)) or len(json.dumps(v)) < 300 else '...') for k, v in t['ev'][0].items()}))
    ev = dict(property=cid, tier=tier, seed=seed, level='model_checking',
              coverage=dict(
                  states=gst['distinct'] + tst['distinct'], transitions=gst['generated'] + tst['generated'],
                  traces_validated_against_impl=stats['traces'] if bad is None else max(0, bad['tid'] - 1),
                  spec_states=gst['distinct'], scenarios=len(scn), events=stats['events'],
                  events_by_kind=stats['ops'], corrupted_traces_rejected=f'{st[1]}/{st[0]}',
                  samples=sample),
              wall_s=round(time.time() - t0, 2), assumptions=meta['assumptions'], violations=[])
    if bad is not None:
        t = json.loads(lines[bad['tid'] - 1])
        replay = os.path.join(work, f'replay-{seed}.json')
        json.dump(dict(property=cid, verdict=bad['verdict'], event_index=bad['event'], seed=seed, tier=tier,
                       scenario=stats['src'][bad['tid'] - 1], trace=t,
                       how=f'VERIF_TIER={tier} VERIF_SEED={seed} python3 check.py {cid}'), open(replay, 'w'), indent=1)
        ev['violations'] = [dict(verdict=bad['verdict'], trace=bad['tid'], event=bad['event'], replay=replay)]
    json.dump(ev, open(os.path.join(HERE, 'evidence', f'{cid}.json'), 'w'), indent=1)
    if bad is not None:
        log(f'{cid}: clause failed: {bad["verdict"]} (trace {bad["tid"]}, event {bad["event"]})')
        log('scenario: ' + json.dumps(stats['src'][bad['tid'] - 1])[:1500])
        log(f'VIOLATION property={cid} replay={replay}')
        sys.exit(1)
    log(f'{cid}: held ({ev["wall_s"]} s)')
    sys.exit(0)


if __name__ == '__main__':
    main()
