#!/usr/bin/env python3
"""Builds and runs the check of one property.

usage: run.py PROPERTY [quick|thorough]     run the check, write its evidence
       run.py --replay FILE                 re-run a saved failing case
       run.py --selfcheck                   compile every check
       run.py --tools                       check that the tools are there
"""
import concurrent.futures
import glob
import hashlib
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
import time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VERIF_REPO', '/repo')
BUILD = os.path.join(VERIF, '.build')
EVID = os.path.join(VERIF, 'evidence')
JOBS = max(1, min(8, os.cpu_count() or 1))

# Left over from before the code moved to craftpp; in no CMakeLists.txt.
DEAD = {'src/util/util_binary_view.cpp', 'src/util/util_error.cpp', 'src/util/util_error_code.cpp'}

with open(os.path.join(VERIF, 'checks.json')) as f:
    CHECKS = json.load(f)

SAN = ['-fsanitize=address,undefined',
       '-fno-sanitize=alignment,vptr,signed-integer-overflow,shift,float-cast-overflow',
       '-fno-sanitize-recover=all']
TSAN = ['-fsanitize=thread', '-O0']  # an optimizer makes some shared variables local
BASE = ['-std=c++20', '-g1', '-O1', '-w', '-fno-omit-frame-pointer']


def say(*a):
    print(*a, file=sys.stderr, flush=True)


def includes(conf):
    inc = ['-I' + os.path.join(VERIF, 'lib'), '-I' + os.path.join(VERIF, 'shim'),
           '-I' + os.path.join(REPO, 'src')]
    for d in conf.get('include', []):
        inc.append('-I' + os.path.join(REPO, d))
    return inc


def repo_sources(conf):
    out = []
    for d in conf['sources']:
        if d.endswith('.cpp'):
            found = [os.path.join(REPO, d)]
        else:
            found = sorted(glob.glob(os.path.join(REPO, d, '**', '*.cpp'), recursive=True))
        for p in found:
            if os.path.relpath(p, REPO) not in DEAD and p not in out:
                out.append(p)
    return out


def tree_digest():
    """Digest of everything a translation unit may include."""
    h = hashlib.sha256()
    roots = [os.path.join(REPO, 'src'), os.path.join(REPO, 'node'),
             os.path.join(VERIF, 'lib'), os.path.join(VERIF, 'shim'), os.path.join(VERIF, 'checks')]
    for r in roots:
        for dp, dn, fn in os.walk(r):
            dn.sort()
            for n in sorted(fn):
                if n.endswith(('.hpp', '.h', '.inc', '.ipp', '.inl')):
                    p = os.path.join(dp, n)
                    h.update(p.encode())
                    with open(p, 'rb') as f:
                        h.update(f.read())
    return h.hexdigest()


class CompileError(Exception):
    pass


class LinkError(CompileError):
    pass


def compile_one(job):
    src, flags, digest = job
    with open(src, 'rb') as f:
        content = f.read()
    key = hashlib.sha256(b'\0'.join([digest.encode(), src.encode(), content, ' '.join(flags).encode()])).hexdigest()
    obj = os.path.join(BUILD, 'obj', key + '.o')
    if os.path.exists(obj):
        return obj
    tmp = '%s.%d.tmp.o' % (obj, os.getpid())
    p = subprocess.run(flags + ['-c', src, '-o', tmp], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if p.returncode != 0:
        raise CompileError('%s:\n%s' % (src, p.stdout.decode(errors='replace')[:6000]))
    os.replace(tmp, obj)
    return obj


def build_with(prop, conf, cxx, fuzzer, everything=False):
    os.makedirs(os.path.join(BUILD, 'obj'), exist_ok=True)
    digest = tree_digest()
    cov = ['-fsanitize=fuzzer-no-link'] if cxx == 'clang++' else []
    san = TSAN if conf.get('threads') else SAN
    flags = [cxx] + BASE + san + includes(conf)
    check = os.path.join(VERIF, conf.get('check', 'checks/%s.cpp' % prop))
    extra = [os.path.join(VERIF, x) for x in conf.get('extra', [])]
    core = os.path.join(VERIF, 'lib/pbt.cpp')
    if conf.get('work'):    # see lib/work.hpp
        cov = ['-fsanitize-coverage=edge,trace-pc' if cxx == 'clang++' else '-fsanitize-coverage=trace-pc']
    jobs = [(check, flags + (cov if conf.get('work') else []), digest)]
    jobs += [(x, flags, digest) for x in extra]
    jobs += [(x, flags + (cov if conf.get('fuzz') or conf.get('work') else []), digest) for x in repo_sources(conf)]
    jobs += [(core, flags, digest)]
    if fuzzer:
        jobs += [(core, flags + ['-DPBT_LIBFUZZER'], digest)]
    rest = []
    if everything:  # the sources grew a dependency outside those listed
        have = repo_sources(conf)
        rest = [(x, flags, digest) for x in repo_sources({'sources': ['src']}) if x not in have]

    def quietly(job):
        try:
            return compile_one(job)
        except CompileError:
            return None

    with concurrent.futures.ThreadPoolExecutor(JOBS) as ex:
        objs = list(ex.map(compile_one, jobs))
        rest = [x for x in ex.map(quietly, rest) if x]
    objs = rest + objs
    libs = ['-l' + x for x in conf.get('libs', [])] + ['-lpthread']
    if conf.get('work'):
        libs += ['-Wl,' + ','.join('--wrap=' + x for x in ('memcpy', 'memmove', '__asan_memcpy', '__asan_memmove'))]
    more = ['-lcrypto'] if everything else []
    outdir = os.path.join(BUILD, 'bin')
    os.makedirs(outdir, exist_ok=True)
    common = objs[:-2] if fuzzer else objs[:-1]
    core_obj = objs[-2] if fuzzer else objs[-1]
    binary = os.path.join(outdir, prop)

    def link(out, cmd):
        tmp = '%s.%d.tmp' % (out, os.getpid())
        p = subprocess.run(cmd + ['-o', tmp], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if p.returncode != 0:
            raise LinkError('link:\n' + p.stdout.decode(errors='replace')[:6000])
        os.replace(tmp, out)

    link(binary, [cxx] + san + common + [core_obj] + libs + more)
    fbin = None
    if fuzzer:
        fbin = binary + '.fuzz'
        link(fbin, [cxx, '-fsanitize=fuzzer'] + san + common + [objs[-1]] + libs + more)
    return binary, fbin


def build(prop, conf):
    try:
        try:
            return build_with(prop, conf, 'clang++', bool(conf.get('fuzz')))
        except LinkError as e:
            say('does not link, adding the other sources:', e)
            return build_with(prop, conf, 'clang++', bool(conf.get('fuzz')), True)
    except CompileError as e:
        say('clang++ build failed, trying g++:', e)
        return build_with(prop, conf, 'g++', False)


def known_findings(prop):
    """Entries 'KNOWN-FINDING: property=<id> tag=<tag> <what fails>'."""
    out = []
    path = os.path.join(VERIF, 'known_findings.txt')
    if os.path.exists(path):
        for line in open(path):
            m = re.match(r'KNOWN-FINDING:\s+property=(\S+)\s+tag=(\S+)\s+(.*)', line.strip())
            if m and m.group(1) == prop:
                out.append((m.group(2), m.group(3)))
    return out


def run_fuzz(prop, conf, binary, fbin, tier, seed, tags, replay_out):
    """Coverage-guided stage. Returns (violation, statistics)."""
    lst = subprocess.run([binary, '--list'], stdout=subprocess.PIPE, text=True).stdout
    targets = [l.split()[0] for l in lst.splitlines() if l.split()[3] == 'fuzz']
    stats = []
    violation = False
    if not targets:
        return False, stats
    spec = conf['fuzz']
    runs = spec.get('quick_runs', 20000)
    secs = spec.get('quick_secs', 60)
    if tier == 'thorough':
        runs = -1
        secs = spec.get('thorough_secs', 600)
    per = max(1, JOBS // len(targets))
    work = tempfile.mkdtemp(prefix='pbtfuzz.')
    try:
        procs = []
        for t in targets:
            for k in range(per):
                d = os.path.join(work, '%s.%d' % (t, k))
                corpus = os.path.join(d, 'corpus')
                os.makedirs(corpus)
                # Half of the processes start from generated cases, half from nothing.
                if k % 2 == 0:
                    subprocess.run([binary, '--only', t, '--seed', str(seed + 7919 * k), '--emit-corpus', corpus,
                                    '--known', ','.join(tags)], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
                env = dict(os.environ, PBT_FUZZ_TEST=t, PBT_FUZZ_STATS=os.path.join(d, 'stats'),
                           PBT_KNOWN=','.join(tags))
                log = open(os.path.join(d, 'log'), 'wb')
                cmd = [fbin, '-seed=%d' % (seed * 1000 + k + 1), '-runs=%d' % runs,
                       '-max_total_time=%d' % secs, '-timeout=60', '-rss_limit_mb=3000',
                       '-max_len=%d' % spec.get('max_len', 4096), '-len_control=20', '-print_final_stats=1',
                       '-artifact_prefix=' + d + '/', corpus]
                procs.append((t, d, subprocess.Popen(cmd, cwd=d, env=env, stdout=log, stderr=log)))
        for t, d, p in procs:
            try:
                p.wait(secs + 180)
            except subprocess.TimeoutExpired:
                p.kill()
                p.wait()
        for t, d, p in procs:
            text = open(os.path.join(d, 'log'), errors='replace').read()
            m = re.search(r'number_of_executed_units:\s*(\d+)', text)
            c = re.findall(r'cov: (\d+)', text)
            st = {'target': t, 'executed': int(m.group(1)) if m else 0, 'coverage_edges': int(c[-1]) if c else 0}
            try:
                e, n = open(os.path.join(d, 'stats')).read().split()
                st['nontrivial'] = int(n)
            except (OSError, ValueError):
                pass
            stats.append(st)
            if violation:
                continue
            for art in sorted(glob.glob(os.path.join(d, 'crash-*')) + glob.glob(os.path.join(d, 'timeout-*'))
                              + glob.glob(os.path.join(d, 'oom-*'))):
                r = subprocess.run([binary, '--property', prop, '--only', t, '--from-bytes', art,
                                    '--replay-out', replay_out, '--known', ','.join(tags)],
                                   stdout=subprocess.PIPE, text=True)
                sys.stdout.write(r.stdout)
                if r.returncode == 1:
                    violation = True
                    break
                say('artifact of %s did not reproduce' % t)
    finally:
        shutil.rmtree(work, ignore_errors=True)
    return violation, stats


NODE_MODULES = '/opt/veriftools/node/node_modules'


def bundle_ts(prop, conf):
    """Bundles the TypeScript under test and the check; returns their paths."""
    out = os.path.join(BUILD, 'ts')
    os.makedirs(out, exist_ok=True)
    esbuild = os.path.join(NODE_MODULES, '.bin', 'esbuild')

    def go(source, cwd, target, *flags):
        tmp = '%s.%d.tmp' % (target, os.getpid())
        p = subprocess.run([esbuild, '--bundle', '--platform=node', '--log-level=error', '--outfile=' + tmp, *flags] + ([source] if source else []),
                           input=None if source else conf['entry'], cwd=cwd, env=dict(os.environ, NODE_PATH=NODE_MODULES),
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if p.returncode != 0:
            raise CompileError('esbuild:\n' + p.stdout[:6000])
        os.replace(tmp, target)

    code, check = os.path.join(out, prop + '.code.js'), os.path.join(out, prop + '.js')
    go(None, os.path.join(REPO, conf['dir']), code, '--loader=ts', '--format=iife', '--global-name=' + conf['global'],
       *(['--external:' + conf['external']] if 'external' in conf else []))
    go(os.path.join(VERIF, 'checks', prop + '.ts'), VERIF, check)
    return code, check


def run_ts(prop, tier):
    started = time.time()
    conf = CHECKS[prop]
    tags = [t for t, _ in known_findings(prop)]
    seed = int(os.environ.get('VERIF_SEED', '1') or '1')
    os.makedirs(os.path.join(EVID, 'replay'), exist_ok=True)
    replay_out = os.path.join(EVID, 'replay', prop + '.replay')
    if os.path.exists(replay_out):
        os.unlink(replay_out)
    try:
        code, check = bundle_ts(prop, conf)
    except CompileError as e:
        say('cannot build the check:', e)
        return 2
    tmp = tempfile.mkdtemp(prefix='pbtrun.')
    try:
        out = os.path.join(tmp, 'out.json')
        r = subprocess.run(['node', check, json.dumps({'property': prop, 'tier': tier, 'seed': seed, 'bundle': code, 'known': tags,
                                                       'out': out, 'replay_out': replay_out})],
                           stdout=subprocess.PIPE, text=True)
        sys.stdout.write(r.stdout)
        if r.returncode not in (0, 1):
            say('the check ended with status', r.returncode)
            return 2
        res = json.load(open(out))
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    for tag, text in known_findings(prop):
        print('KNOWN-FINDING: property=%s %s' % (prop, text))
    ev = {
        'property': prop, 'tier': tier, 'seed': seed, 'level': 'exploration',
        'coverage': {'evaluations': res['evaluations'], 'distinct_nontrivial': res['distinct_nontrivial'], 'rule': res['rule'],
                     'samples': res['samples'], 'tests': res['tests'], 'classification': res['labels'],
                     'known_findings_met': res.get('known', {})},
        'assumptions': conf.get('assumptions', []),
        'wall_s': round(time.time() - started, 3),
        'violations': r.returncode,
    }
    path = os.path.join(EVID, prop + '.json')
    with open(path + '.tmp', 'w') as f:
        json.dump(ev, f, indent=1)
        f.write('\n')
    os.replace(path + '.tmp', path)
    say('%s %s: %d cases, %d distinct non-trivial, %.1f s%s'
        % (prop, tier, res['evaluations'], res['distinct_nontrivial'], time.time() - started, ' VIOLATION' if r.returncode else ''))
    sys.stdout.flush()
    return r.returncode


def run(prop, tier):
    started = time.time()
    conf = CHECKS[prop]
    if 'entry' in conf:
        return run_ts(prop, tier)
    seed = int(os.environ.get('VERIF_SEED', '1') or '1')
    os.makedirs(EVID, exist_ok=True)
    os.makedirs(os.path.join(EVID, 'replay'), exist_ok=True)
    try:
        binary, fbin = build(prop, conf)
    except CompileError as e:
        say('cannot build the check:', e)
        return 2
    built = time.time()
    findings = known_findings(prop)
    tags = [t for t, _ in findings]
    replay_out = os.path.join(EVID, 'replay', prop + '.replay')
    if os.path.exists(replay_out):
        os.unlink(replay_out)
    tmp = tempfile.mkdtemp(prefix='pbtrun.')
    budget = conf.get('budget', 240) if tier == 'quick' else conf.get('thorough_budget', 1800)
    violation = False
    res = {}
    try:
        for attempt in range(3):
            out = os.path.join(tmp, 'out.json')
            r = subprocess.run([binary, '--property', prop, '--tier', tier, '--seed', str(seed),
                                '--workers', str(JOBS), '--budget', str(budget), '--out', out,
                                '--replay-out', replay_out, '--known', ','.join(tags)],
                               stdout=subprocess.PIPE, text=True)
            sys.stdout.write(r.stdout)
            if os.path.exists(out):
                res = json.load(open(out))
            if r.returncode in (0, 1):
                break
            say('run %d was inconclusive (status %d)' % (attempt + 1, r.returncode))
        if r.returncode == 1:
            violation = True
        elif r.returncode != 0:
            # Three explorations of the same cases failed, each in a way that
            # depends on more than the case: the run itself is the replay.
            with open(replay_out, 'w') as f:
                f.write('# property %s fails on every exploration with seed %d, not on a single case alone;\n'
                        '# re-run: VERIF_SEED=%d python3 /verif/run.py %s %s\n' % (prop, seed, seed, prop, tier))
            print('VIOLATION property=%s replay=%s' % (prop, replay_out))
            violation = True
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    fuzz = []
    if not violation and fbin:
        violation, fuzz = run_fuzz(prop, conf, binary, fbin, tier, seed, tags, replay_out)
    for tag, text in findings:
        print('KNOWN-FINDING: property=%s %s' % (prop, text))
    cov = {
        'evaluations': res.get('evaluations', 0) + sum(x['executed'] for x in fuzz),
        'distinct_nontrivial': res.get('distinct_nontrivial', 0),
        'rule': res.get('rule', ''),
        'samples': res.get('samples', []),
        'generated_cases': res.get('evaluations', 0),
        'discarded_cases': res.get('discarded', 0),
        'tests': res.get('tests', {}),
        'classification': res.get('labels', {}),
        'excluded_as_known_finding': res.get('known', {}),
        'cut_by_time': res.get('cut_by_time', False),
        'fuzzer': fuzz,
    }
    ev = {
        'property': prop, 'tier': tier, 'seed': seed, 'level': 'exploration', 'coverage': cov,
        'assumptions': conf.get('assumptions', []) + [
            'code that uses craftpp is compiled against the stand-in in /verif/shim (craftpp is not available offline)'],
        'wall_s': round(time.time() - started, 3),
        'build_s': round(built - started, 3),
        'violations': 1 if violation else 0,
    }
    path = os.path.join(EVID, prop + '.json')
    with open(path + '.tmp', 'w') as f:
        json.dump(ev, f, indent=1)
        f.write('\n')
    os.replace(path + '.tmp', path)
    say('%s %s: %d cases, %d distinct non-trivial, fuzzer %s, %.1f s%s'
        % (prop, tier, cov['generated_cases'], cov['distinct_nontrivial'],
           ' '.join('%s:%d' % (x['target'], x['executed']) for x in fuzz) or '-',
           time.time() - started, ' VIOLATION' if violation else ''))
    sys.stdout.flush()
    return 1 if violation else 0


def replay(path):
    m = re.search(r'^property (\S+)', open(path).read(), re.M)
    if not m:
        say('not a replay file')
        return 3
    if 'entry' in CHECKS[m.group(1)]:
        code, check = bundle_ts(m.group(1), CHECKS[m.group(1)])
        return subprocess.run(['node', check, json.dumps({'property': m.group(1), 'tier': 'quick', 'seed': 1, 'bundle': code,
                                                          'replay': os.path.abspath(path)})]).returncode
    binary, _ = build(m.group(1), CHECKS[m.group(1)])
    tags = [t for t, _ in known_findings(m.group(1))]
    return subprocess.run([binary, '--replay', path, '--known', ','.join(tags)]).returncode


def main():
    a = sys.argv[1:]
    if a and a[0] == '--replay':
        return replay(a[1])
    if a and a[0] == '--tools':
        for t in ('clang++', 'g++'):
            subprocess.run([t, '--version'], check=True, stdout=subprocess.DEVNULL)
        return 0
    if a and a[0] == '--selfcheck':
        for p, c in CHECKS.items():
            bundle_ts(p, c) if 'entry' in c else build(p, c)
            say('built', p)
        return 0
    if not a or a[0] not in CHECKS:
        say(__doc__)
        return 3
    return run(a[0], a[1] if len(a) > 1 else os.environ.get('VERIF_TIER', 'quick'))


if __name__ == '__main__':
    sys.exit(main())
