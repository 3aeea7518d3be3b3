#!/usr/bin/env python3
"""Decide one property (or several): bin/check.py C01 [C02 ...]

Runs the specification stages that concern the property: TLC explores a module and the harness
replays its state graph into the crate built from /repo's working tree (kind R), or the harness
records what the crate does and TLC judges the recording (kind T).

Exit 0: held.  Exit 1: VIOLATION line printed.  Exit 2: the check itself failed.
"""
import concurrent.futures as cf
import hashlib, json, os, random, re, shutil, signal, subprocess, sys, threading, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(VERIF, 'spec')
BUILD = os.path.join(VERIF, 'build')
HARNESS = os.path.join(VERIF, 'harness')
PROGRAMS = os.path.join(VERIF, 'programs')
TIER = os.environ.get('VERIF_TIER', 'quick')
if TIER not in ('quick', 'thorough'):
    TIER = 'quick'
SEED = int(os.environ.get('VERIF_SEED', '1') or 1)
CP = '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar'
TLC_SLOTS = threading.Semaphore(3)
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from stages import STAGES, LEVEL, ASSUMPTIONS  # noqa: E402
import programs  # noqa: E402


PROPS = set()
INTERP = threading.Lock()


class ToolError(Exception):
    pass


def sh(cmd, cwd=None, env=None, timeout=840, stdout=None):
    e = dict(os.environ)
    e.update(env or {})
    p = subprocess.Popen(cmd, cwd=cwd, env=e, stdout=stdout or subprocess.PIPE,
                         stderr=subprocess.PIPE if stdout else subprocess.STDOUT,
                         start_new_session=True)
    try:
        out, err = p.communicate(timeout=timeout)
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, signal.SIGKILL)
        p.communicate()
        return None, 'timeout'
    return p.returncode, (out or err or b'').decode('utf8', 'replace')


def cargo_env(target, flags=''):
    return {'CARGO_NET_OFFLINE': 'true', 'CARGO_TARGET_DIR': target, 'CARGO_INCREMENTAL': '0',
            'RUSTC_WRAPPER': '', 'CARGO_TERM_COLOR': 'never',
            'RUSTUP_TOOLCHAIN': 'stable-x86_64-unknown-linux-gnu',
            'RUSTFLAGS': (flags + ' --cap-lints warn -Awarnings').strip()}


BUILDS = {  # name: (cargo arguments, rustflags, directory of the binaries)
    'dev': (['build'], '', 'debug'),
    'release': (['build', '--release'], '', 'release'),
    'hooked': (['build'], '--cfg goggles_verif', 'debug'),
    'programs': (['build'], '', 'debug'),
}
BINS = {  # which binary of the harness has which stages
    'alloc': 'alloc', 'rwres': 'alloc', 'storage_plain': 'storage', 'storage_tracked': 'storage', 'world': 'world',
    'world_tracked': 'world', 'join': 'join', 'reg_set': 'registry', 'reg_world': 'registry', 'anyset': 'anyset',
    'anyclone': 'anyset', 'systems': 'sys', 'plize': 'sys', 'sys': 'sys', 'conc_schedules': 'conc', 'conc_stress': 'conc',
    'app': 'app', 'holds': 'app', 'scale_entities': 'scale', 'scale_storages': 'scale', 'scale_worlds': 'scale',
    'capacity': 'scale', 'lifetimes': 'scale', 'types': 'types',
}
build_locks = {k: threading.Lock() for k in BUILDS}
built = {}
wanted = {k: set() for k in BUILDS}  # the binaries this run needs


def bin_of(stage):
    return 'gvh_' + BINS[stage.get('sut') or stage['wl']]


def builds_of(stage):
    return stage.get('tier', {}).get(TIER, {}).get('builds', stage.get('builds', ['dev', 'release'] if stage['kind'] == 'R' else ['dev']))


def build(name):
    """Builds the wanted binaries and returns the directory they are in."""
    with build_locks[name]:
        if name in built:
            if isinstance(built[name], ToolError):
                raise built[name]
            return built[name]
        args, flags, where = BUILDS[name]
        target = os.path.join(BUILD, 'target-' + name)
        # cargo decides by mtime: always rebuild the crate under test and the harness
        for prof in ('debug', 'release'):
            fp = os.path.join(target, prof, '.fingerprint')
            if os.path.isdir(fp):
                for d in os.listdir(fp):
                    if d.startswith(('goggles-', 'gvh-', 'gvp-')):
                        shutil.rmtree(os.path.join(fp, d), ignore_errors=True)
        cmd = ['cargo'] + args + ['--offline', '--manifest-path', os.path.join(PROGRAMS if name == 'programs' else HARNESS, 'Cargo.toml')]
        for b in sorted(wanted[name]):
            cmd += ['--bin', b]
        rc, out = sh(cmd, env=cargo_env(target, flags))
        if rc != 0:
            built[name] = ToolError(f'build {name} failed:\n{out[-4000:]}')
            raise built[name]
        built[name] = os.path.join(target, where)
        return built[name]


def cfg_text(stage):
    text = open(os.path.join(SPEC, stage['cfg'])).read()
    consts = dict(stage.get('consts', {}))
    if TIER == 'thorough':
        consts.update(stage.get('thorough', {}))
    for k, v in consts.items():
        text, n = re.subn(r'(\b%s\s*=\s*)\S+' % re.escape(k), lambda m: m.group(1) + str(v), text)
        if n == 0:
            raise ToolError(f'no constant {k} in {stage["cfg"]}')
    return text, consts


STAT = re.compile(r'(\d+) states generated, (\d+) distinct states found, (\d+) states left')


def tlc(name, stage, out, env=None, workers=None):
    work = os.path.dirname(out)
    text, consts = cfg_text(stage)
    cfg = os.path.join(work, name + '.cfg')
    open(cfg, 'w').write(text)
    workers = workers or stage.get('workers', 4)
    key = None
    if os.environ.get('GVH_CACHE') and not env:
        h = hashlib.sha256(text.encode())
        for f in sorted(os.listdir(SPEC)):
            if f.endswith('.tla'):
                h.update(open(os.path.join(SPEC, f), 'rb').read())
        key = os.path.join(BUILD, 'cache', stage['module'] + '-' + h.hexdigest()[:24])
        if os.path.exists(key):
            shutil.copy(key, out)
            rc = 0
    if not (key and os.path.exists(key)):
        meta = os.path.join(work, 'meta')
        cmd = ['java', '-Xmx%s' % stage.get('heap', '5g'), '-Xss64m', '-XX:+UseParallelGC', '-cp', CP,
               'tlc2.TLC', '-noGenerateSpecTE', '-metadir', meta, '-workers', str(workers), '-fp', '0',
               '-config', cfg, stage['module'] + '.tla']
        with TLC_SLOTS, open(out, 'wb') as f:
            rc, err = sh(cmd, cwd=SPEC, env=env, stdout=f, timeout=stage.get('timeout', 840))
        shutil.rmtree(meta, ignore_errors=True)
    lines = []
    with open(out, errors='replace') as f:
        for line in f:
            if not line.startswith('"@'):
                lines.append(line)
    log = ''.join(lines)
    if rc is None:
        raise ToolError(f'{name}: TLC timed out')
    if rc != 0 or 'No error has been found' not in log:
        raise ToolError(f'{name}: TLC reports an error in the specification:\n{log[-3000:]}')
    if key and not os.path.exists(key):
        os.makedirs(os.path.dirname(key), exist_ok=True)
        shutil.copy(out, key)
    m = STAT.findall(log)
    gen, distinct, _ = map(int, m[-1])
    return {'generated': gen, 'distinct': distinct, 'constants': consts}


def run_gvh(binary, args, timeout=800):
    rc, out = sh([binary] + args, timeout=timeout)
    if rc == 3:
        raise ToolError(f'harness: {out[-2000:]}')
    return rc, out


def stage_R(name, stage, work):
    out = os.path.join(work, 'tlc.out')
    futures = {b: POOL2.submit(build, b) for b in builds_of(stage)}
    stats = tlc(name, stage, out)
    res = {'stage': name, 'kind': 'replay of the state graph into the code', 'module': stage['module'],
           'tlc': stats, 'runs': [], 'mismatches': [], 'states': stats['distinct'],
           'transitions': stats['generated'], 'traces': 0, 'samples': []}
    tier = stage.get('tier', {}).get(TIER, {})
    for b, fut in futures.items():
        binary = os.path.join(fut.result(), bin_of(stage))
        rep = os.path.join(work, f'report-{b}.json')
        crash = os.path.join(work, f'crash-{b}')
        os.makedirs(crash, exist_ok=True)
        args = ['graph', '--sut', stage['sut'], '--in', out, '--out', rep, '--seed', str(SEED),
                '--name', stage['module'], '--walks', str(tier.get('walks', stage.get('walks', 200))),
                '--walklen', str(tier.get('walklen', stage.get('walklen', 60))),
                '--maxedges', str(tier.get('maxedges', stage.get('maxedges', 0)))]
        if stage.get('variants'):
            args += ['--variant', stage['variants']]
        # operations that never return or kill the process are reported and then left out, so that
        # the rest is explored too
        skip, t0 = [], time.time()
        for attempt in range(8):
            more = ['--skip', ';'.join(skip)] if skip else []
            rc, log = run_gvh(binary, args + more + ['--crash', crash])
            if rc is None:
                if attempt:
                    break
                raise ToolError(f'{name}: harness timed out')
            culprits = []
            if rc != 0:
                try:
                    ms = crashed(name, stage, binary, args, crash, rc, log)
                except ToolError:
                    if attempt:
                        break
                    raise
            else:
                r = json.load(open(rep))
                res['runs'].append({k: r[k] for k in ('edges', 'depth', 'variants', 'cases', 'ops_applied', 'walks', 'coverage')} | {'build': b})
                res['traces'] += r['cases'] + r['walks']
                ms = r['mismatches']
                res['samples'] = res['samples'] or r['samples'][-1:]
            for m in ms:
                m['build'] = b
                m['stage'] = name
                res['mismatches'].append(m)
                if m['field'] in ('hang', 'crash') and m['edge'] >= 0:
                    c = class_of(stage, binary, out, m['edge'])
                    if c and c not in skip and c not in culprits:
                        culprits.append(c)
            if not culprits or time.time() - t0 > 240:
                break
            skip += culprits
    if stage.get('interp') and 'C25' in PROPS and not any('C25' in m['tags'] for m in res['mismatches']):
        interpret(name, stage, futures, out, work, res)
    return res


def interpret(name, stage, futures, graph, work, res):
    """Replay a few edges of every kind in an interpreter, which sees bad accesses that happen to go
    well: what safe code does has a defined meaning (C25)."""
    b = 'dev' if 'dev' in futures else list(futures)[0]
    native = os.path.join(futures[b].result(), bin_of(stage))
    per, variants = stage['interp']
    if TIER == 'thorough':
        per *= 5
    culprits = sorted({c for m in res['mismatches'] if m['field'] in ('hang', 'crash') and m['edge'] >= 0
                       for c in [class_of(stage, native, graph, m['edge'])] if c})
    try:
        run = programs.Interpreter(HARNESS, bin_of(stage), os.path.join(BUILD, 'interpreted-harness'),
                                   os.path.join(BUILD, 'target-miri'), os.path.join(BUILD, 'miri-sysroot'))
    except programs.ProgramError as e:
        res['runs'].append({'build': 'interpreted', 'note': str(e)[-300:]})
        return

    def one(k):
        v, sub = variants[k], os.path.join(work, f'sub-{k}')
        rc, log = run_gvh(native, ['extract', '--sut', stage['sut'], '--in', graph, '--out', sub, '--seed', str(SEED * 100 + k),
                                   '--n', str(per), '--leave', ','.join(sorted({c.split(':')[0] for c in culprits}))])
        if rc != 0:
            raise ToolError(f'{name}: extract: {log[-1000:]}')
        rc, out, err = run(['walk', '--sut', stage['sut'], '--in', sub, '--variant', v], 90 if TIER == 'quick' else 500)
        cases = re.findall(r'^CASE (\d+)$', out, re.M)
        if rc == 0 and 'END' in out:
            return len(cases), 'fine', []
        bad = programs.verdict_of(err) if rc is not None and cases else None
        if not bad or not bad.startswith('Undefined'):
            return len(cases), 'stopped', []
        return len(cases), bad, [{'tags': ['C25'], 'field': 'meaning', 'variant': v, 'edge': -1,
                                  'operations': json.load(open(sub + '.json'))[int(cases[-1])],
                                  'expected_by_spec': 'the operations have a defined meaning',
                                  'observed_in_code': 'the interpreter: ' + bad}]

    with INTERP:
        with cf.ThreadPoolExecutor(8) as ex:
            rs = list(ex.map(one, range(len(variants))))
    for n, rc, ms in rs:
        res['traces'] += n
        for m in ms:
            m['build'], m['stage'] = 'interpreted', name
            res['mismatches'].append(m)
    res['runs'].append({'build': 'interpreted', 'cases': sum(r[0] for r in rs), 'variants': variants, 'status': [r[1] for r in rs]})


def class_of(stage, binary, graph, edge):
    rc, out = run_gvh(binary, ['tags', '--sut', stage['sut'], '--in', graph, '--edge', str(edge), '--field', 'crash'])
    return json.loads(out).get('class') if rc == 0 else None


# how a process dies when safe code has reached memory it must not reach
MEMORY_SIGNALS = {-signal.SIGSEGV, -signal.SIGBUS, -signal.SIGILL}
MEMORY_TEXT = re.compile(r'unsafe precondition|double free|free\(\): |malloc|corrupted|invalid pointer|misaligned pointer|null pointer')


def crashed(name, stage, binary, args, crash, rc, log):
    """The process died (signal or abort): find the case that kills it."""
    found, seen = [], []
    for f in sorted(os.listdir(crash)):
        try:
            j = json.loads(open(os.path.join(crash, f)).read().strip().split('\n')[0])
        except Exception:
            continue
        seen.append(j)
    base = [a for a in args]
    if '--variant' in base:
        i = base.index('--variant')
        del base[i:i + 2]
    for j in seen:
        if j['edge'] < 0:
            continue
        one = base + ['--only-edge', str(j['edge']), '--variant', j['variant'], '--threads', '1']
        rc1, _ = run_gvh(binary, one, timeout=120)
        if rc1 != 0:
            found.append(j)
    res = []
    for j in found or seen:
        rc1, out = run_gvh(binary, ['tags', '--sut', stage['sut'], '--in', base[base.index('--in') + 1],
                                    '--edge', str(j['edge']), '--field', 'crash'])
        t = json.loads(out) if rc1 == 0 else {'tags': stage['props'], 'operations': []}
        if not t['tags'] or j['edge'] < 0:
            t['tags'] = stage['props']
        elif rc in MEMORY_SIGNALS or MEMORY_TEXT.search(log):
            t['tags'] = t['tags'] + ['C25']
        res.append({'stage': name, 'tags': t['tags'], 'field': 'crash', 'variant': j['variant'],
                    'edge': j['edge'], 'operations': t['operations'],
                    'expected_by_spec': 'the operation returns',
                    'observed_in_code': f'the process died (status {rc}) {log[-300:]}'})
    if not res:
        raise ToolError(f'{name}: harness died with {rc}: {log[-1500:]}')
    return res


def stage_T(name, stage, work):
    """Record traces from the code, let TLC judge them."""
    tier = stage.get('tier', {}).get(TIER, {})
    n = tier.get('traces', stage.get('traces', 1))
    res = {'stage': name, 'kind': 'traces recorded from the code, judged by TLC', 'module': stage['module'],
           'runs': [], 'mismatches': [], 'states': 0, 'transitions': 0, 'traces': 0, 'samples': []}
    builds = builds_of(stage)
    bins = {b: POOL2.submit(build, b) for b in builds}

    if stage.get('soft'):
        # an instrumented build that changed code need not fit: other stages decide without it
        for b in list(builds):
            try:
                bins[b].result()
            except ToolError as e:
                builds = [x for x in builds if x != b]
                res['skipped'] = f'build {b} does not fit the code: {str(e)[-300:]}'
        if not builds:
            return res

    def one(b, k):
        binary = os.path.join(bins[b].result(), bin_of(stage))
        d = os.path.join(work, f'{b}-{k}')
        os.makedirs(d, exist_ok=True)
        trace = os.path.join(d, 'trace.ndjson')
        args = ['record', '--wl', stage['wl'], '--out', trace, '--seed', str(SEED * 1000 + k),
                '--size', str(tier.get('size', stage.get('size', 100)))]
        rc, log = run_gvh(binary, args)
        if rc is None:
            raise ToolError(f'{name}: recording timed out')
        if rc == 4:  # the recorder reports a hang or crash it has written into the trace itself
            rc = 0
        died = rc != 0
        note = log.strip().split('\n')[-1] if rc == 0 else ''
        r = {'note': json.loads(note) if note.startswith('{') else {}, 'trace': trace, 'build': b, 'k': k}
        events = sum(1 for _ in open(trace, errors='replace')) if os.path.exists(trace) else 0
        r['events'] = events
        if died:
            r['bads'] = [{'tags': stage.get('crash_tags', stage['props']), 'field': 'crash',
                          'got': f'the process died (status {rc}) after {events} events: {log[-300:]}'}]
            return r
        out = os.path.join(d, 'tlc.out')
        r['tlc'] = tlc(name, stage, out, env={'TRACE': trace}, workers=1)
        ends, r['bads'] = [], []
        for line in open(out, errors='replace'):
            if line.startswith('"@B'):
                r['bads'].append(json.loads(json.loads(line)[3:]))
            if line.startswith('"@D'):
                ends.append(json.loads(json.loads(line)[3:]))
        if not r['bads'] and not ends:
            raise ToolError(f'{name}: TLC did not reach the end of {trace}')
        if not r['bads'] and ends[-1]['events'] != events:
            raise ToolError(f'{name}: TLC judged {ends} of {events} events')
        r['n'] = ends[-1].get('traces', 1) if ends else 1
        return r

    with cf.ThreadPoolExecutor(4) as ex:
        rs = list(ex.map(lambda a: one(*a), [(b, k) for b in builds for k in range(n)]))
    for r in rs:
        if 'tlc' in r:
            res['states'] += r['tlc']['distinct']
            res['transitions'] += r['tlc']['generated']
        res['traces'] += r.get('n', 1)
        res['runs'].append({'build': r['build'], 'seed': SEED * 1000 + r['k'], 'events': r['events'], 'traces': r.get('n', 1)} | r['note'])
        for bad in r['bads']:
            at = bad.get('at', 0)
            evs = []
            if at:
                with open(r['trace']) as f:
                    for i, line in enumerate(f, 1):
                        if i >= at - 6 and i <= at:
                            evs.append(line.strip()[:2000])
            res['mismatches'].append({'stage': name, 'tags': bad['tags'], 'field': str(bad.get('field')),
                                      'variant': r['build'], 'edge': at,
                                      'expected_by_spec': str(bad.get('want', 'see the specification'))[:2000],
                                      'observed_in_code': str(bad.get('got', ''))[:2000],
                                      'operations': evs, 'trace': r['trace']})
    if rs:
        with open(rs[0]['trace'], errors='replace') as f:
            head = [next(f, '').strip()[:600] for _ in range(3)]
        res['samples'] = [{'spec': stage['module'], 'first_events': head}]
    return res


def stage_M(name, stage, work):
    """Model checking only (the design level)."""
    out = os.path.join(work, 'tlc.out')
    stats = tlc(name, stage, out)
    return {'stage': name, 'kind': 'model checking', 'module': stage['module'], 'tlc': stats, 'runs': [],
            'mismatches': [], 'states': stats['distinct'], 'transitions': stats['generated'], 'traces': 0,
            'samples': []}


def stage_P(name, stage, work):
    """Programs enumerated by the specification: the compiler refuses, or running shows, what must
    not be possible."""
    out = os.path.join(work, 'tlc.out')
    fut = POOL2.submit(build, 'programs')
    stats = tlc(name, stage, out)
    progs = []
    with open(out, errors='replace') as f:
        for line in f:
            if line.startswith('"@P'):
                progs.append(json.loads(json.loads(line)[2:]))
    progs.sort(key=lambda p: json.dumps(p, sort_keys=True))
    miri = stage.get('tier', {}).get(TIER, {}).get('miri', stage.get('miri'))
    note = None
    src = getattr(programs, stage['programs'])(progs, seed=SEED, extra=2 * (miri or 0))
    for i, p in enumerate(src):
        p['id'] = i
    ext = os.path.join(fut.result(), 'libgvp.rlib')
    try:
        ok = programs.verdicts(src, ext, os.path.join(os.path.dirname(ext), 'deps'), work)
        if stage.get('run'):
            programs.run_programs(ok, ext, os.path.join(os.path.dirname(ext), 'deps'), work)
        if miri:
            # what the compiler accepts and does not end in a bad use must have a defined meaning
            rng = random.Random(SEED)
            todo = [p for p in ok if not p['bad'] or p.get('outcome') == 'panic']
            rng.shuffle(todo)
            # the harmless ones first
            todo.sort(key=lambda p: bool(p['bad']))
            todo = todo[:miri]
            try:
                programs.miri_programs(todo, PROGRAMS, work, os.path.join(BUILD, 'target-miri'), os.path.join(BUILD, 'miri-sysroot'), timeout=300)
            except programs.ProgramError as e:
                # the programs have been compiled and run all the same
                note = f'not interpreted: {str(e)[:300]}'
    except programs.ProgramError as e:
        raise ToolError(f'{name}: {e}')
    tag, mm = stage['props'][0], []
    fine = [p for p in src if not p['bad'] and not p.get('extra')]
    good = [p for p in fine if not p['refused'] and p.get('outcome', 'reached') == 'reached']
    if len(good) * 2 < len([p for p in fine if p.get('want', True)]):
        raise ToolError(f'{name}: only {len(good)} of {len(fine)} harmless programs are accepted')
    for p in src:
        oc = p.get('outcome')
        what = None
        if p['bad'] and not p['refused'] and (oc is None or oc in ('reached', 'wrong', 'undefined', 'hang') or oc.startswith('signal')):
            what = 'the compiler refuses the program' + (', or it panics before the last use' if stage.get('run') else '')
            got = 'the compiler accepts it' + (f'; run: {oc}' if oc else '')
        elif p.get('want') and p['refused']:
            what, got = 'the program is accepted', f"refused: {p['refused']} {p.get('message', '')}"
        elif not p['bad'] and oc in ('wrong', 'undefined'):
            what, got = 'the reference leads to the value', f'run: {oc}'
        elif p.get('miri', 'fine') != 'fine' and not p['miri'].startswith('stopped'):
            what, got = 'the program has a defined meaning', 'the interpreter: ' + p['miri']
        if what:
            mm.append({'stage': name, 'tags': [tag], 'field': p['name'].replace(' ', ''), 'variant': p['bad'] or 'harmless', 'edge': p['id'],
                       'operations': p['src'], 'expected_by_spec': what, 'observed_in_code': got})
    codes = {}
    for p in src:
        if 'miri' in p:
            k = 'interpreted: ' + p['miri'][:60]
            codes[k] = codes.get(k, 0) + 1
        k = (p['bad'] or 'harmless') + ': ' + (('refused ' + p['refused']) if p['refused'] else 'accepted' + (', ' + p['outcome'] if 'outcome' in p else ''))
        codes[k] = codes.get(k, 0) + 1
    return {'stage': name, 'kind': 'programs enumerated by TLC, compiled and run against the crate', 'module': stage['module'], 'tlc': stats,
            'runs': [{'build': 'programs', 'programs': len(src), 'verdicts': codes, **({'note': note} if note else {})}], 'mismatches': mm, 'states': stats['distinct'],
            'transitions': stats['generated'], 'traces': len(src), 'samples': [{'program': src[len(src) // 2]['name'], 'source': src[len(src) // 2]['src']}]}


POOL2 = cf.ThreadPoolExecutor(4)


def known(prop):
    """Known findings: lines 'known: property=<id> match=<text> :: description'."""
    res = []
    p = os.path.join(VERIF, 'known_findings.txt')
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r'known: property=(\S+) match=(\S+) :: (.*)', line)
            if m and m.group(1) == prop:
                res.append((m.group(2), m.group(3)))
    return res


def main():
    props = sys.argv[1:]
    PROPS.update(props)
    t0 = time.time()
    names = [n for n, s in STAGES.items() if any(p in s['props'] for p in props)
             and (TIER == 'thorough' or not s.get('thorough_only'))]
    only = os.environ.get('GVH_STAGES')
    if only:
        names = [n for n in names if n in only.split(',')]
    if not names:
        print(f'no stage for {props}')
        return 2
    work = os.path.join(BUILD, 'run-' + '-'.join(props)[:60] + f'-{os.getpid()}')
    os.makedirs(work, exist_ok=True)
    for n in names:
        if STAGES[n]['kind'] in 'RT':
            for b in builds_of(STAGES[n]):
                wanted[b].add(bin_of(STAGES[n]))
    kinds = {'R': stage_R, 'T': stage_T, 'M': stage_M, 'P': stage_P}
    results, errors = {}, []

    def go(n):
        d = os.path.join(work, n)
        os.makedirs(d, exist_ok=True)
        ts = time.time()
        r = kinds[STAGES[n]['kind']](n, STAGES[n], d)
        r['wall_s'] = round(time.time() - ts, 1)
        return r

    try:
        with cf.ThreadPoolExecutor(6) as ex:
            fs = {n: ex.submit(go, n) for n in names}
            for n, f in fs.items():
                try:
                    results[n] = f.result()
                except ToolError as e:
                    errors.append(f'{n}: {e}')
        rc = 0
        for p in props:
            rc = max(rc, conclude(p, results, errors, time.time() - t0))
        if errors and rc == 0:
            for e in errors:
                print('ERROR', e)
            return 2
        return rc
    finally:
        if not os.environ.get('GVH_KEEP'):
            shutil.rmtree(work, ignore_errors=True)


def conclude(p, results, errors, wall):
    mine = {n: r for n, r in results.items() if p in STAGES[n]['props']}
    viol, kn = [], {}
    for n, r in mine.items():
        for m in r['mismatches']:
            if p not in m['tags']:
                continue
            sig = f"{n}/{m['field']}/" + (str(m['operations'][-1].get('op')) if m['operations'] and isinstance(m['operations'][-1], dict) else '')
            for match, text in known(p):
                if sig.startswith(match):
                    kn[match] = text
                    break
            else:
                viol.append(m)
    for text in kn.values():
        print(f'KNOWN-FINDING: property={p} {text}')
    cov = {
        'states': sum(r['states'] for r in mine.values()),
        'transitions': sum(r['transitions'] for r in mine.values()),
        'traces_validated_against_impl': sum(r['traces'] for r in mine.values()),
        'samples': [s for r in mine.values() for s in r['samples']],
        'stages': [{k: v for k, v in r.items() if k not in ('mismatches', 'samples')} for r in mine.values()],
    }
    ev = {'property': p, 'tier': TIER, 'seed': SEED, 'level': LEVEL, 'coverage': cov,
          'assumptions': ASSUMPTIONS.get('*', []) + ASSUMPTIONS.get(p, []),
          'wall_s': round(wall, 1), 'violations': len(viol)}
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    with open(os.path.join(VERIF, 'evidence', p + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    if viol:
        viol.sort(key=lambda m: len(m['operations']))
        d = os.path.join(BUILD, 'replays')
        os.makedirs(d, exist_ok=True)
        path = os.path.join(d, f'{p}.json')
        for m in viol:
            if m.get('trace') and os.path.exists(m['trace']):
                keep = os.path.join(d, f'{p}-{m["stage"]}.ndjson')
                shutil.copy(m['trace'], keep)
                m['trace'] = keep
        json.dump({'property': p, 'tier': TIER, 'seed': SEED, 'violations': viol}, open(path, 'w'), indent=1)
        m = viol[0]
        print(f"{p}: {m['stage']}: after {len(m['operations'])} operations [{m.get('variant')}] field {m['field']}: "
              f"the specification says {m['expected_by_spec'][:300]}, the code did {m['observed_in_code'][:300]}")
        print(f'VIOLATION property={p} replay={path}')
        return 1
    if not errors:
        print(f"{p}: held; {cov['states']} states, {cov['transitions']} transitions, "
              f"{cov['traces_validated_against_impl']} traces validated, {ev['wall_s']} s")
    return 0


if __name__ == '__main__':
    sys.exit(main())
