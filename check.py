#!/usr/bin/env python3
"""Builds redsea from /repo's working tree into the simulator and decides one property by seeded
search over simulated runs.

    check.py C07                 quick tier (or VERIF_TIER)
    check.py C07 --tier thorough
    check.py --build             only build (setup)
    check.py --replay FILE       replay a recorded violation

Exit status 0: held on everything explored; 1: violation (a VIOLATION line names the replay file);
2: no answer (build failure, broken harness).
"""
import argparse, concurrent.futures, glob, hashlib, json, os, re, shutil, subprocess, sys, time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('REDSEA_REPO', '/repo')
BUILD = os.path.join(VERIF, 'build')
OUT = os.path.join(VERIF, 'out')
NCPU = os.cpu_count() or 4

sys.path.insert(0, os.path.join(VERIF, 'tools'))
from tiers import TIERS  # noqa: E402


def sha(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else p.encode())
        h.update(b'\0')
    return h.hexdigest()[:20]


def read(p):
    with open(p, 'rb') as f:
        return f.read()


def compile_all(jobs):
    """jobs: list of (object path, command). Runs those whose object does not exist yet."""
    todo = [(o, c) for o, c in jobs if not os.path.exists(o)]

    def one(job):
        o, c = job
        tmp = '%s.%d.tmp' % (o, os.getpid())
        r = subprocess.run(c + ['-o', tmp], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if r.returncode == 0:
            os.replace(tmp, o)
        return r.returncode, c, r.stdout.decode(errors='replace')

    with concurrent.futures.ThreadPoolExecutor(NCPU) as ex:
        for rc, c, out in ex.map(one, todo):
            if rc:
                print('BUILD FAILED: ' + ' '.join(c))
                print(out[-4000:])
                sys.exit(2)


def build(variant):
    """variant: 'plain' or 'asan'. Returns the path of the simulator."""
    os.makedirs(BUILD, exist_ok=True)
    san = ['-fsanitize=address,undefined', '-fno-sanitize-recover=all', '-fno-omit-frame-pointer'] if variant == 'asan' else []
    # --- redsea, from the working tree
    src = sorted(glob.glob(REPO + '/src/**/*.cc', recursive=True))
    hdr = sorted(glob.glob(REPO + '/src/**/*.h*', recursive=True) + glob.glob(REPO + '/ext/**/*.h*', recursive=True))
    m = re.search(r"version:\s*'([0-9.]+)'", read(REPO + '/meson.build').decode())
    conf = '#pragma once\n#define VERSION "%s"\n' % (m.group(1) if m else '0')
    tree = sha(conf, read(VERIF + '/sim/hooks.h'), *[x for p in hdr for x in (os.path.relpath(p, REPO), read(p))])
    cdir = os.path.join(BUILD, 'conf-' + sha(conf))
    os.makedirs(cdir, exist_ok=True)
    if not os.path.exists(cdir + '/config.h'):
        with open(cdir + '/config.h', 'w') as f:
            f.write(conf)
    jobs, objs = [], []
    liquid_old = subprocess.run(['g++', '-x', 'c++', '-fsyntax-only', '-'], input=b'#include <complex>\nextern "C" {\n#include <liquid/liquid.h>\n}\nmodemcf m;\n',
                                stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL).returncode == 0
    for p in src:
        cc = ['clang++-18' if san else 'g++', '-std=c++14', '-O1' if san else '-O2', '-g1', '-w', '-I', REPO, '-I', cdir, '-D_GLIBCXX_ASSERTIONS', '-include', VERIF + '/sim/hooks.h'] + san
        if liquid_old:
            cc.append('-DMODEM_IS_MODEMCF')
        if os.path.basename(p) == 'redsea.cc':
            cc.append('-Dmain=redsea_main')
        o = os.path.join(BUILD, 'r-%s.o' % sha(' '.join(cc), tree, os.path.relpath(p, REPO), read(p)))
        jobs.append((o, cc + ['-c', p]))
        objs.append(o)
    # --- the simulator
    hs = sorted(glob.glob(VERIF + '/sim/*.cc'))
    hh = sha(*[read(p) for p in sorted(glob.glob(VERIF + '/sim/*.hpp'))])
    hobjs = []
    for p in hs:
        name = os.path.basename(p)
        cc = ['clang++-18', '-std=c++17', '-O2' if name in ('mpx.cc', 'ref_front.cc') else '-O1', '-g1', '-I', VERIF + '/sim']
        if name == 'world.cc' and san:
            cc += ['-DSIM_ASAN']
        o = os.path.join(BUILD, 'h-%s.o' % sha(' '.join(cc), hh, name, read(p)))
        jobs.insert(0, (o, cc + ['-c', p]))
        hobjs.append(o)
    # longest compilations first
    jobs.sort(key=lambda j: -os.path.getsize(j[1][-1]))
    compile_all(jobs)
    exe = os.path.join(BUILD, 'sim-%s-%s' % (variant, sha(*(objs + hobjs))))
    if not os.path.exists(exe):
        tmp = '%s.%d.tmp' % (exe, os.getpid())
        r = subprocess.run(['clang++-18', '-rdynamic'] + san + ['-o', tmp] + hobjs + objs + ['-lsndfile', '-lliquid'], stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT)
        if r.returncode:
            print('LINK FAILED\n' + r.stdout.decode(errors='replace')[-4000:])
            sys.exit(2)
        os.replace(tmp, exe)
    return exe


def env():
    e = dict(os.environ)
    for k in list(e):
        if k in ('TZ', 'LANG') or k.startswith('LC_'):
            del e[k]
    e['ASAN_OPTIONS'] = 'detect_leaks=0:abort_on_error=1:handle_abort=0:allocator_may_return_null=0:detect_stack_use_after_return=0'
    e['UBSAN_OPTIONS'] = 'print_stacktrace=0:abort_on_error=1'
    e['SIM_SCRATCH'] = OUT + '/scratch'
    return e


def run_workers(exe, argvs, timeout, go_on=False):
    """Runs several simulator processes; returns [(exit status, stdout)]."""
    procs = []
    for a in argvs:
        procs.append(subprocess.Popen([exe] + a, env=dict(env(), SIM_GO_ON='1') if go_on else env(), stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, cwd=OUT))
    res = []
    end = time.time() + timeout
    with concurrent.futures.ThreadPoolExecutor(len(procs)) as ex:

        def wait(p):
            try:
                out, _ = p.communicate(timeout=max(1, end - time.time()))
                return p.returncode, out.decode(errors='replace')
            except subprocess.TimeoutExpired:
                p.kill()
                p.communicate()
                return 'timeout', ''

        res = list(ex.map(wait, procs))
    return res


def known_findings():
    """Open findings: 'finding: property=<id> class=<class> match=<regex> <text>'. Fixed ones suppress nothing."""
    v = []
    try:
        for l in open(os.path.join(VERIF, 'known-findings.txt'), encoding='utf8'):
            m = re.match(r'finding: property=(\S+) class=(\S+) match=(\S+) (.*)', l.strip())
            if m:
                v.append(m.groups())
    except FileNotFoundError:
        pass
    return v


def replay(exe, path):
    (rc, out), = run_workers(exe, [['replay', path]], 300)
    try:
        return json.loads(out.strip().splitlines()[-1])
    except Exception:
        return {'bad': False, 'error': 'no report (%s)' % rc}


def check(prop, tier, seed):
    t0 = time.time()
    spec = TIERS[prop]
    os.makedirs(OUT + '/scratch', exist_ok=True)
    os.makedirs(OUT + '/replay', exist_ok=True)
    os.makedirs(VERIF + '/evidence', exist_ok=True)
    variants = spec['variants'][tier]
    total = {'runs': 0, 'execs': 0, 'nontrivial': 0, 'gates': 0, 'unstable': 0, 'sim_s': 0.0}
    counters, states, samples, found, hashes = {}, set(), [], [], []
    build_s = 0.0
    run_s = 0.0
    for vi, (variant, count, secs) in enumerate(variants):
        tb = time.time()
        exe = build(variant)
        build_s += time.time() - tb
        tr = time.time()
        workers = NCPU
        sv = seed + 1000 * vi
        res = run_workers(exe, [['run', prop, str(sv), str(w), str(workers), str(count), str(secs), OUT + '/replay'] for w in range(workers)], secs + 420,
                          any(k[0] == prop for k in known_findings()))
        run_s += time.time() - tr
        for rc, out in res:
            try:
                j = json.loads(out.strip().splitlines()[-1])
            except Exception:
                print('harness failure: worker ended with %s and no report' % rc)
                sys.exit(2)
            if 'error' in j:
                print('harness failure: ' + j['error'])
                sys.exit(2)
            for k in total:
                total[k] += j[k]
            for k, v in j['counters'].items():
                counters[k] = counters.get(k, 0) + v
            states.update(j['state_list'])
            samples += j['samples']
            hashes.append(j['hash'])
            for f in j['found']:
                f['variant'] = variant
                f['exe'] = exe
                found.append(f)
        if found:
            break
    # ---- violations
    status = 0
    reported = []
    kf = known_findings()
    seen_known = set()
    for f in sorted(found, key=lambda f: f['items']):
        hit = [k for k in kf if k[0] == prop and k[1] == f['class'] and re.search(k[2], f['msg'])]
        if hit:
            if hit[0] not in seen_known:
                seen_known.add(hit[0])
                print('KNOWN-FINDING: property=%s %s' % (prop, hit[0][3]))
            continue
        # in a fresh process, from the file alone
        same = False
        for _ in range(3):
            r = replay(f['exe'], f['path'])
            if r.get('bad') and r.get('class') == f['class']:
                same = True
                break
        f['replayed'] = same
        if not same and not f.get('unstable') and total['unstable'] == 0:
            print('note: seed %s (%s) did not reproduce from its replay file: %s' % (f['seed'], f['class'], r))
        f.pop('exe')
        reported.append(f)
    good = [f for f in reported if f['replayed']] or reported
    if good:
        status = 1
        for f in good[:3]:
            print('seed %s, %d of %d steps left: %s: %s' % (f['seed'], f['items'], f['items_before'], f['class'], f['msg']))
        print('VIOLATION property=%s replay=%s' % (prop, good[0]['path']))
    # ---- evidence
    wall = time.time() - t0
    faults = {k[6:]: v for k, v in sorted(counters.items()) if k.startswith('fault_')}
    for k in ('short_read_or_write', 'eintr', 'eio', 'clock_set_back', 'killed', 'file_eio', 'file_short', 'file_eintr', 'write_fault'):
        if counters.get(k):
            faults[k] = counters[k]
    ev = {
        'property': prop, 'tier': tier, 'seed': seed, 'level': 'exploration',
        'coverage': {
            'evaluations': total['runs'],
            'distinct_nontrivial': total['nontrivial'],
            'rule': spec['rule'],
            'samples': samples[:4],
            'simulated_executions_of_main': total['execs'],
            'runs_per_hour_one_seed_each': int(total['runs'] / max(run_s, 0.001) * 3600),
            'seeds': '%d*1000003 + 0..%d' % (seed, max(total['runs'] - 1, 0)),
            'simulated_seconds_on_air': round(total['sim_s'] if total['sim_s'] else counters.get('groups', 0) * 104 / 1187.5, 1),
            'faults_injected': faults,
            'events_reached': {k: v for k, v in sorted(counters.items()) if not k.startswith('fault_') and k not in faults and k != 'reads'},
            'read_calls_scheduled': counters.get('reads', 0),
            'distinct_states': len(states),
            'state_measure': spec['measure'],
            'determinism_gates_passed': total['gates'] - total['unstable'],
            'determinism_gates_failed': total['unstable'],
            'build_variants': [v[0] for v in variants],
            'real_components': ['all of /repo/src, from main() on (option parsing, readers, DSP, block sync, group decoding, TMC, RFT, output)', 'libsndfile, liquid-dsp, iconv, libstdc++ iostreams, nlohmann::json'],
            'stub_components': ['read/write/fstat on stdin, stdout and stderr', 'system clock and time zone', 'reads of regular files (fault injection in front of the real call)', 'process death', 'the radio: transmitter, channel, receiver front end (sim/gen.cc, sim/mpx.cc)'],
            'report_hash': sha(*[str(h) for h in hashes]),
            'build_s': round(build_s, 1), 'run_s': round(run_s, 1),
        },
        'assumptions': spec['assumptions'],
        'wall_s': round(wall, 2),
        'violations': len(reported),
    }
    with open(VERIF + '/evidence/%s.json' % prop, 'w') as f:
        json.dump(ev, f, indent=1, ensure_ascii=False)
        f.write('\n')
    print('%s %s: %d runs (%d distinct and non-trivial), %d executions of main(), %.0f simulated s, %d states; build %.0f s, run %.0f s; %s' %
          (prop, tier, total['runs'], total['nontrivial'], total['execs'], ev['coverage']['simulated_seconds_on_air'], len(states), build_s, run_s,
           'VIOLATED' if status else 'held'))
    return status


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop', nargs='?')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER') or 'quick', choices=['quick', 'thorough'])
    ap.add_argument('--build', action='store_true')
    ap.add_argument('--replay')
    a = ap.parse_args()
    os.makedirs(OUT + '/scratch', exist_ok=True)
    if a.build:
        for v in ('plain', 'asan'):
            build(v)
        return 0
    if a.replay:
        j = json.load(open(a.replay))
        for v in ('asan', 'plain') if j['prop'] == 'C01' else ('plain',):
            r = replay(build(v), os.path.abspath(a.replay))
            if r.get('bad'):
                break
        print(json.dumps(r, ensure_ascii=False))
        if r.get('bad'):
            print('VIOLATION property=%s replay=%s' % (j['prop'], a.replay))
        return 1 if r.get('bad') else 0
    if a.prop not in TIERS:
        print('unknown property')
        return 2
    try:
        seed = int(os.environ.get('VERIF_SEED') or 1)
    except ValueError:
        seed = 1
    return check(a.prop, a.tier, seed)


if __name__ == '__main__':
    sys.exit(main())
