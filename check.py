#!/usr/bin/env python3
"""Driver of the deterministic simulation checks.

  check.py setup                        build every simulator variant
  check.py run PROP [--tier T]          decide one property (VERIF_SEED, VERIF_TIER)
  check.py replay FILE                  re-execute a replay file against /repo's working tree

Everything is built from /repo's working tree into /verif/build (ignored by git).
"""
import concurrent.futures
import fcntl
import glob
import hashlib
import json
import os
import shutil
import subprocess
import sys
import time
import urllib.parse

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('COLUMBUS_REPO', '/repo')
BUILD = os.path.join(VERIF, 'build')
SIM = os.path.join(VERIF, 'sim')
EVID = os.path.join(VERIF, 'evidence')
KNOWN = os.path.join(VERIF, 'KNOWN_FINDINGS.txt')
JOBS = min(8, os.cpu_count() or 1)

VARIANTS = {
    # name: (letter type, internal encoding, sparse hash, description)
    'V1': ('uint16_t', 'UTF-16LE', True, '16-bit letters, google sparsehash (the shipped configuration)'),
    'V2': ('uint16_t', 'UTF-16LE', False, '16-bit letters, std::unordered_map'),
    'V3': ('uint32_t', 'UTF-32LE', False, '32-bit letters, std::unordered_map'),
    'VU': ('uint32_t', 'UTF-32LE', False, '32-bit letters, std::unordered_map, threads under the simulated scheduler'),
    'VT': ('uint16_t', 'UTF-16LE', True, '16-bit letters, google sparsehash, threads under the simulated scheduler'),
}
VARIANTS['VP'] = ('uint16_t', 'UTF-16LE', False, '16-bit letters, std::unordered_map, with the Python module in an embedded interpreter')
VARIANTS['VQ'] = ('uint32_t', 'UTF-32LE', False, '32-bit letters, std::unordered_map, with the Python module in an embedded interpreter')
HAVE_SPARSE = os.path.exists('/usr/include/google/sparse_hash_map')

# runs per variant: (quick, thorough). A run is one seeded scenario, executed with the property's oracle.
PLAN = {
    'C01': {'V1': (1400, 21000), 'V2': (1200, 18000), 'V3': (1200, 18000)},
    'C02': {'V1': (1400, 21000), 'V2': (1200, 18000), 'V3': (1200, 18000)},
    'C03': {'V1': (2400, 24000), 'V2': (1800, 18000), 'V3': (1800, 18000)},
    'C04': {'V1': (1600, 24000), 'V3': (1600, 24000)},
    'C05': {'V1': (640, 12000), 'V3': (576, 10800)},
    'C06': {'V1': (1000, 15000), 'V2': (1000, 15000), 'V3': (800, 12000)},
    'C07': {'V1': (2800, 42000), 'V2': (2800, 42000), 'V3': (2400, 36000)},
    'C08': {'V1': (960, 18000), 'V2': (800, 15000), 'V3': (640, 12000)},
    'C09': {'V1': (2800, 42000), 'V2': (2400, 36000), 'V3': (2400, 36000)},
    'C10': {'VT': (900, 30000), 'VU': (900, 30000)},
    'C11': {'V1': (1000, 15000), 'V2': (1000, 15000), 'V3': (1000, 15000)},
    'C12': {'V1': (3600, 54000), 'V3': (3600, 54000)},
    'C13': {'V1': (3200, 48000), 'V2': (2000, 30000), 'V3': (2000, 30000)},
    'C14': {'V1': (3200, 48000), 'V2': (2400, 36000), 'V3': (2400, 36000)},
    'C15': {'V1': (1600, 24000), 'V2': (1200, 18000), 'V3': (1200, 18000)},
    'C16': {'V1': (1600, 24000), 'V2': (1200, 18000), 'V3': (1200, 18000)},
    'C17': {'V1': (40000, 600000), 'V3': (20000, 300000)},
    'C18': {'V1': (12000, 180000), 'V3': (10000, 150000)},
    'C19': {'V1': (5200, 78000), 'V3': (5200, 78000)},
    'C20': {'V1': (5200, 78000), 'V3': (5200, 78000)},
    'C25': {'V1': (500, 7500), 'V2': (400, 6000), 'V3': (400, 6000)},
    'C24': {'VP': (10000, 150000), 'VQ': (8000, 120000)},
}
CAP = {'quick': 240.0, 'thorough': 3000.0}
MINIMISE = {'quick': 45, 'thorough': 180}

WRAP = ['malloc', 'calloc', 'realloc', 'free', 'strdup', 'strndup']
THREAD_WRAP = ['memcpy', 'memmove', 'memset', 'memcmp', 'memchr', 'strlen', 'strcmp', 'strncmp', 'strcpy', 'strncpy', 'strcat', 'iconv',
               'strtok', 'setlocale', 'localtime', 'gmtime', 'ctime', 'setenv', 'putenv', 'unsetenv', 'getenv', 'mbtowc', 'wctomb', 'mblen', 'mbstowcs']
COMMON_HOST = ['gen', 'model', 'scenario', 'main', 'eval', 'seams']
PER_VARIANT = ['world', 'capi']
SIMOPT = {'world': '-O0 -fsanitize=address', 'capi': '-O0 -fsanitize=address', 'model': '-O2'}


class Broken(Exception):
    pass


def sources():
    src = sorted(glob.glob(REPO + '/src/*.cc') + glob.glob(REPO + '/src/*.cpp') + glob.glob(REPO + '/src/*.c'))
    hdr = sorted(glob.glob(REPO + '/include/*') + glob.glob(REPO + '/src/*.h*') + glob.glob(REPO + '/src/pch/*') + glob.glob(REPO + '/python/*.*') + glob.glob(REPO + '/python/pch/*'))
    sim = sorted(glob.glob(SIM + '/*'))
    return src, hdr, sim


def tree_key():
    h = hashlib.sha256()
    src, hdr, sim = sources()
    for f in src + hdr + sim + [os.path.abspath(__file__)]:
        if os.path.isfile(f):
            h.update(f.encode() + b'\0' + open(f, 'rb').read() + b'\0')
    return h.hexdigest()[:20]


def core_header(path, variant):
    lt, enc, sparse, _ = VARIANTS[variant]
    s = open(REPO + '/include/ColumbusCore.hh.in').read()
    rep = {'LETTER_TYPE': lt, 'INTERNAL_ENCODING': enc, 'SO_VERSION': '1.1.0', 'ABI_VERSION': '1', 'SO_VERSION_MAJOR': '1',
           'CMAKE_INSTALL_PREFIX': '/nonexistent-columbus', 'COL_LIB_BASENAME': 'columbus'}
    for k, v in rep.items():
        s = s.replace('${%s}' % k, v).replace('@%s@' % k, v)
    out = []
    for l in s.split('\n'):
        t = l.replace(' ', '')
        if t.startswith('#cmakedefine'):
            name = l.split()[1] if l.split()[0] == '#cmakedefine' else l.replace('# cmakedefine', '#cmakedefine').split()[1]
            on = name == 'HAS_SPARSE_HASH' and sparse and HAVE_SPARSE
            l = '#define ' + name if on else '/* #undef %s */' % name
        out.append(l)
    with open(path, 'w') as f:
        f.write('\n'.join(out))


def python_flags():
    """Compiler and linker flags for the interpreter that boost.python was built for."""
    libs = sorted(glob.glob('/usr/lib/*/libboost_python3*.so'))
    for l in libs:
        ver = os.path.basename(l)[len('libboost_python'):-3]
        v = ver[0] + '.' + ver[1:]
        if os.path.exists('/usr/include/python%s/Python.h' % v):
            return '-I/usr/include/python%s' % v, '-lboost_python%s -lpython%s' % (ver, v)
    raise Broken('no boost.python with a matching Python found')


def sh(cmd):
    p = subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
    return p.returncode, p.stdout


def build(variants):
    """Compiles the library and the simulator; returns {variant: path of the simulator}."""
    os.makedirs(BUILD, exist_ok=True)
    key = tree_key()
    top = os.path.join(BUILD, key)
    with open(os.path.join(BUILD, 'lock'), 'w') as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        for old in glob.glob(BUILD + '/*'):
            if os.path.isdir(old) and os.path.basename(old) not in (key,) and time.time() - os.path.getmtime(old) > 3600:
                shutil.rmtree(old, ignore_errors=True)
        todo = [v for v in variants if not os.path.exists(os.path.join(top, v, 'sim'))]
        if todo:
            compile_variants(top, todo)
        os.utime(top)
    return {v: os.path.join(top, v, 'sim') for v in variants}


def compile_variants(top, todo):
    src, _, _ = sources()
    jobs, links = [], []
    host_done = set()
    for v in todo:
        d = os.path.join(top, v)
        os.makedirs(d + '/gen', exist_ok=True)
        core_header(d + '/gen/ColumbusCore.hh', v)
    for v in todo:
        d = os.path.join(top, v)
        thr = v in ('VT', 'VU')
        hostdir = os.path.join(top, 'hostT' if thr else 'host')
        os.makedirs(hostdir, exist_ok=True)
        if thr:
            lib = '-O1 -g1 -fsanitize=thread -fno-builtin -D_GLIBCXX_EXTERN_TEMPLATE=0'
        else:
            lib = '-O1 -g1 -fsanitize=address --param asan-use-after-return=0 -fsanitize-coverage=trace-pc'
        objs_lib, objs_host = [], []
        py = v in ('VP', 'VQ')
        pyinc, pylib = python_flags() if py else ('', '')
        for n in PER_VARIANT + COMMON_HOST + (['tsanrt'] if thr else []) + (['pyapi'] if py else []):
            per = n in PER_VARIANT or py and n in ('main', 'pyapi')
            o = os.path.join(d if per else hostdir, 'sim_%s.o' % n)
            objs_host.append(o)
            if o in host_done or os.path.exists(o):
                continue
            host_done.add(o)
            opt = SIMOPT.get(n, '-O1')
            if thr:
                opt = opt.replace('-fsanitize=address', '')
            jobs.append((n in ('world',), 'g++ -std=c++14 -g1 -w %s %s --param asan-use-after-return=0 -I%s/include -I%s/gen -I%s -c %s/%s.cc -o %s.tmp && mv %s.tmp %s'
                         % (opt, '-DSIM_THREADS' if thr else '-DSIM_PYTHON ' + pyinc if py else '', REPO, d, SIM, SIM, n, o, o, o)))
        for s in src:
            o = os.path.join(d, 'lib_%s.o' % os.path.basename(s).replace('.', '_'))
            objs_lib.append(o)
            jobs.append((False, 'g++ -std=c++11 %s -w -DBUILDING_COLUMBUS -I%s/include -I%s/gen -c %s -o %s' % (lib, REPO, d, s, o)))
        if py:
            o = os.path.join(d, 'lib_python.o')
            objs_lib.append(o)
            jobs.append((True, 'g++ -std=c++11 %s -w -DBUILDING_COLUMBUS %s -I%s/include -I%s/gen -c %s/python/columbus.cc -o %s' % (lib, pyinc, REPO, d, REPO, o)))
        wraps = ','.join('--wrap=' + w for w in WRAP + (THREAD_WRAP if thr else []))
        links.append('g++ %s -o %s/sim.tmp %s %s -Wl,%s -ldl -lpthread -licuuc %s && mv %s/sim.tmp %s/sim'
                     % ('-rdynamic' if thr else '-fsanitize=address', d, ' '.join(objs_lib), ' '.join(objs_host), wraps, pylib, d, d))
    jobs.sort(key=lambda j: not j[0])
    for group in ([j[1] for j in jobs], links):
        with concurrent.futures.ThreadPoolExecutor(JOBS) as ex:
            for cmd, (rc, out) in zip(group, ex.map(sh, group)):
                if rc:
                    raise Broken('build failed: %s\n%s' % (cmd, out[-3000:]))


def sim_env(scratch):
    e = dict(os.environ)
    for k in list(e):
        if k.startswith(('LD_', 'ASAN_', 'COLUMBUS_', 'MALLOC_', 'GLIBC_')):
            del e[k]
    e.update(SIM_SCRATCH=scratch, SIM_SHARE=REPO + '/share', LC_ALL='C.UTF-8',
             ASAN_OPTIONS='detect_leaks=0:max_malloc_fill_size=0:detect_stack_use_after_return=0:quarantine_size_mb=64:malloc_context_size=2:'
                          'alloc_dealloc_mismatch=0:handle_abort=0:log_path=' + scratch + '/asan')
    return e


def findings():
    """finding: property=C06 variant=V1 class=... replay=known/x.scn :: text"""
    out = []
    if os.path.exists(KNOWN):
        for l in open(KNOWN):
            if l.startswith('finding:'):
                head, _, text = l[len('finding:'):].partition('::')
                d = dict(x.split('=', 1) for x in head.split())
                d['text'] = text.strip()
                out.append(d)
    return out


def replay_file(sims, path, scratch, wall=400):
    var = None
    for l in open(path, errors='replace'):
        if l.startswith('scenario ') and var is None:
            var = dict(x.split('=', 1) for x in l.split()[1:]).get('variant')
    if var not in VARIANTS:
        raise Broken('not a replay file: ' + path)
    if var not in sims:
        sims.update(build([var]))
    p = subprocess.run([sims[var], 'replay', path], env=sim_env(scratch), stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, errors="replace", timeout=wall)
    return p.returncode, p.stdout.strip()


def unq(s):
    return urllib.parse.unquote(s, errors='replace')


def run_check(prop, tier, seed):
    t0 = time.time()
    plan = PLAN[prop]
    names = list(plan)
    sims = build(names)
    built = time.time() - t0
    scratch = os.path.join(BUILD, 'run.%s.%d' % (prop, os.getpid()))
    shutil.rmtree(scratch, ignore_errors=True)
    os.makedirs(scratch)
    try:
        return run_shards(prop, tier, seed, plan, sims, scratch, t0, built)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def shards_of(plan, tier):
    """Splits the runs of every variant over the workers, in proportion to their number."""
    ti = 0 if tier == 'quick' else 1
    total = sum(n[ti] for n in plan.values())
    scale = float(os.environ.get('VERIF_SCALE', '1'))
    out = []
    workers = max(JOBS, len(plan))
    left = workers
    items = sorted(plan.items(), key=lambda kv: kv[1][ti])
    for i, (v, n) in enumerate(items):
        k = max(1, round(workers * n[ti] / total)) if i + 1 < len(items) else max(1, left)
        k = min(k, left - (len(items) - i - 1)) if left > len(items) - i - 1 else 1
        left -= k
        runs = max(1, int(n[ti] * scale))
        out += [(v, j, runs, k) for j in range(k)]
    return out


def run_shards(prop, tier, seed, plan, sims, scratch, t0, built):
    known = [f for f in findings() if f['property'] == prop]
    stop = os.path.join(scratch, 'stop')
    env = sim_env(scratch)
    cap = float(os.environ.get('VERIF_BUDGET', CAP[tier]))
    procs, outs = [], []
    for i, (v, j, runs, k) in enumerate(shards_of(plan, tier)):
        out = os.path.join(scratch, 'o%d' % i)
        sd = os.path.join(scratch, 's%d' % i)
        os.makedirs(sd)
        e = dict(env, SIM_SCRATCH=sd)
        e['ASAN_OPTIONS'] = e['ASAN_OPTIONS'].replace(scratch + '/asan', sd + '/asan')
        kn = ';'.join(urllib.parse.quote(f['class']) for f in known if f.get('variant', v) == v)
        cmd = [sims[v], 'run', '--prop', prop, '--variant', v, '--seed', str(seed), '--from', str(j), '--to', str(runs), '--step', str(k),
               '--out', out, '--stop', stop, '--budget', str(cap)]
        if kn:
            cmd += ['--known', kn]
        procs.append((v, j, runs, k, out, subprocess.Popen(cmd, env=e, stdout=subprocess.DEVNULL, stderr=open(os.path.join(sd, 'log'), 'w'))))
    for p in procs:
        try:
            rc = p[5].wait(timeout=cap + 400)
        except subprocess.TimeoutExpired:
            p[5].kill()
            raise Broken('a simulator process did not end')
        if rc != 0 or not os.path.exists(p[4]):
            raise Broken('a simulator process failed (status %d): %s' % (rc, open(os.path.join(os.path.dirname(p[4]), 's%d' % len(outs), 'log')).read()[-500:]))
        outs.append(p[4])
    run_wall = time.time() - t0 - built
    agg, per_variant, hashes, viol, unrep = {}, {}, {}, [], []
    cov = {}
    digests = {}
    for (v, j, runs, k, out, _) in procs:
        r = json.load(open(out))
        a = per_variant.setdefault(v, {})
        for name, x in r.items():
            for tgt in (agg, a):
                if name in ('wall', 'maxOps', 'coverage_points'):
                    tgt[name] = max(tgt.get(name, 0), x)
                elif isinstance(x, (int, float)):
                    tgt[name] = tgt.get(name, 0) + x
                elif isinstance(x, dict):
                    t = tgt.setdefault(name, {})
                    for q in x:
                        t[q] = t.get(q, 0) + x[q]
        hb = open(out + '.hashes', 'rb').read()
        hs = hashes.setdefault(v, set())
        for i in range(0, len(hb), 8):
            if hb[i:i + 8] != b'\0' * 8:
                hs.add(hb[i:i + 8])
        cb = open(out + '.cov', 'rb').read()
        cov[v] = bytes(x | y for x, y in zip(cov.get(v, b'\0' * len(cb)), cb))
        for e in r['violations']:
            f = e.split(' ')
            if f[0] == 'UNREPRODUCED':
                unrep.append((v, int(f[1]), unq(f[2]), unq(f[3])))
            else:
                viol.append((v, f[0], int(f[1]), unq(f[2]), unq(f[3])))
        if os.path.exists(out + '.digests'):
            db = open(out + '.digests', 'rb').read()
            for i in range(0, len(db) // 8):
                d = db[8 * i:8 * i + 8]
                if d != b'\0' * 8:
                    digests.setdefault(j + i * k, {})[v] = d
    compared = 0
    for run in sorted(digests):
        d = digests[run]
        if len(d) < 2:
            continue
        compared += 1
        if len(set(d.values())) > 1 and not any(x[3] == 'build' for x in viol):
            f = cross_build(prop, seed, run, d, sims, scratch, tier)
            if f:
                viol.append(f)
    # What is listed as known.
    lines, status = [], 0
    for f in known:
        rf = os.path.join(VERIF, f['replay'])
        rc, out = replay_file(sims, rf, scratch)
        if rc == 1 and out.startswith('VIOLATED ' + f['class'] + ' '):
            lines.append('KNOWN-FINDING: property=%s %s' % (prop, f['text']))
    listed = 0
    fresh = []
    for x in sorted(viol, key=lambda x: (x[2], x[0])):
        if any(f['class'] == x[3] and f.get('variant', x[0]) == x[0] for f in known):
            listed += 1
        else:
            fresh.append(x)
    reported = None
    for x in fresh:
        reported = report(prop, x, sims, scratch, tier)
        if reported:
            break
    if reported:
        lines.append('%s\n  %s\n  %s' % ('VIOLATION property=%s replay=%s' % (prop, reported['file']), reported['cls'], reported['msg']))
        status = 1
    elif fresh:
        raise Broken('a violation did not replay: %r' % (fresh[0],))
    if not reported and agg.get('determinismBad'):
        lines.append('NOTE: ' + '%d executions were not repeatable: %s' % (agg['determinismBad'], ' '.join(
            open(p[4] + '.unrepeatable').read().strip() for p in procs if os.path.exists(p[4] + '.unrepeatable'))))
    if not reported and unrep and len(unrep) > 0:
        raise Broken('violation without a replay: %r' % (unrep[0],))
    write_evidence(prop, tier, seed, plan, agg, per_variant, hashes, cov, t0, built, run_wall, reported, listed, compared, sims, scratch)
    for l in lines:
        print(l)
    print('%s %s seed %d: %d runs, %d distinct, %.0f s (%.0f s building)%s' % (
        prop, tier, seed, agg['runs'], sum(len(h) for h in hashes.values()), time.time() - t0, built, '' if status else ', held'))
    return status


def cross_build(prop, seed, run, d, sims, scratch, tier):
    """Two builds return different results for one history: an explicit, shortened scenario with the other build's digest."""
    vs = sorted(d)
    a = vs[0]
    b = next(v for v in vs if d[v] != d[a])
    env = sim_env(scratch)

    def digest(v, text):
        f = os.path.join(scratch, 'dig.scn')
        open(f, 'w').write('\n'.join(text) + '\n')
        return subprocess.run([sims[v], 'digest', f], env=env, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, errors="replace").stdout.strip()

    def differs(t):
        x, y = digest(a, t), digest(b, t)
        return x != y and 'none' not in (x, y)
    text = subprocess.run([sims[b], 'emit', '--prop', prop, '--variant', b, '--seed', str(seed), '--run', str(run)], env=env,
                          stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, errors="replace").stdout.rstrip('\n').split('\n')
    if not differs(text):
        return None
    end = time.time() + MINIMISE[tier]
    n = max(1, len(text) // 2)
    while time.time() < end:
        i = 0
        while i < len(text) and time.time() < end:
            part = text[i:i + n]
            if all(l.startswith('op ') for l in part) and differs(text[:i] + text[i + n:]):
                text = text[:i] + text[i + n:]
            else:
                i += n if n == 1 or not any(l.startswith('op ') for l in part) else n
        if n == 1:
            break
        n = max(1, n // 2)
    x = digest(a, text)
    out = [l for l in text if not l.startswith('digest ')]
    k = max(i for i, l in enumerate(out) if l.startswith('env2 '))
    out.insert(k + 1, 'digest ' + x)
    f = os.path.join(scratch, 'build.scn')
    open(f, 'w').write('\n'.join(out) + '\n')
    return (b, f, run, 'build', 'the history returns other results in build %s than in build %s' % (b, a))


def report(prop, x, sims, scratch, tier):
    v, f, run, cls, msg = x
    env = sim_env(scratch)
    small = f + '.min'
    best = f
    if cls != 'build':
        try:
            p = subprocess.run([sims[v], 'minimise', f, small, '--budget', str(MINIMISE[tier])], env=env, stdout=subprocess.PIPE,
                               stderr=subprocess.DEVNULL, text=True, errors="replace", timeout=MINIMISE[tier] + 300)
            if p.returncode == 0 and os.path.exists(small):
                best = small
        except subprocess.TimeoutExpired:
            pass
    for cand in ([best, f] if best != f else [f]):
        a = replay_file(sims, cand, scratch)
        b = replay_file(sims, cand, scratch)
        if a[0] == 1 and b[0] == 1 and a[1].split(' ')[:3] == b[1].split(' ')[:3]:
            os.makedirs(EVID + '/replay', exist_ok=True)
            dst = os.path.join(EVID, 'replay', '%s-%s-%d.scn' % (prop, v, run))
            shutil.copyfile(cand, dst)
            w = a[1].split(' ', 3)
            return {'file': dst, 'cls': w[1], 'msg': w[3] if len(w) > 3 else ''}
    return None


SEAM_NOTE = {
    'real': 'all of /repo/src (compiled unmodified from the working tree), the C++ standard library, glibc iconv and ICU',
    'stub': 'temporary files and their disk space (ftruncate quota), mmap/munmap/mremap/madvise placement, heap allocation outcome and content, '
            'iconv_open outcome, open/read/stat outcome, wall clock, sleeps, rand()',
}


def write_evidence(prop, tier, seed, plan, agg, per_variant, hashes, cov, t0, built, run_wall, reported, listed, compared, sims, scratch):
    os.makedirs(EVID, exist_ok=True)
    samples = []
    v0 = list(plan)[0]
    env = sim_env(scratch)
    for run in (0, 1):
        p = subprocess.run([sims[v0], 'emit', '--prop', prop, '--variant', v0, '--seed', str(seed), '--run', str(run)], env=env,
                           stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, errors="replace")
        samples.append(p.stdout[:3000])
    distinct = sum(len(h) for h in hashes.values())
    runs = int(agg.get('runs', 0))
    c = {
        'evaluations': runs,
        'distinct_nontrivial': distinct,
        'rule': 'One evaluation is one seeded scenario (history of API calls by simulated clients, environment, fault placement chosen from a '
                'fault-free execution) run against the real library and judged by this property\'s oracle. Distinct: the hash over every outcome '
                'and every seam event of the execution differs from all other runs of the same build. Runs ending before judgement are not counted.',
        'samples': samples,
        'runs_per_hour': int(runs / max(run_wall, 1e-6) * 3600),
        'seeds_per_hour': int(runs / max(run_wall, 1e-6) * 3600),
        'simulated_seconds': agg.get('simTimeUs', 0) / 1e6,
        'faults_fired': {k: x for k, x in agg.get('fired', {}).items() if x},
        'environment_effects': {k: x for k, x in agg.get('masked', {}).items() if x},
        'seam_calls': {k: x for k, x in agg.get('calls', {}).items() if x},
        'executions': agg.get('executions', 0), 'api_calls': agg.get('ops', 0), 'api_calls_ok': agg.get('opsOk', 0),
        'api_calls_rejected_as_specified': agg.get('opsExpectedErr', 0), 'api_calls_hit_by_faults': agg.get('opsFaulted', 0),
        'api_calls_failed_by_faults': agg.get('opsFailedByFault', 0), 'api_calls_masking_faults': agg.get('opsMasked', 0),
        'recoveries_tried': agg.get('retries', 0), 'oracle_checks': agg.get('checks', 0), 'searches': agg.get('searches', 0),
        'storage_mappings_placed': agg.get('relocations', 0), 'memory_addresses_reused': agg.get('reused', 0), 'disk_full_episodes': agg.get('quotaHits', 0),
        'thread_switches': agg.get('switches', 0), 'shared_accesses': agg.get('accesses', 0),
        'cross_build_comparisons': compared,
        'coverage_points_reached': {v: sum(1 for x in cov[v] if x) for v in cov},
        'repeatability': {'executions_run_twice': agg.get('determinismChecked', 0), 'different_in_a_warm_process': agg.get('determinismWarm', 0), 'different': agg.get('determinismBad', 0)},
        'runs_not_judged': {'crash_before_the_faults': agg.get('dry_crashes', 0), 'wall_clock': agg.get('wall_kills', 0)},
        'per_variant': {v: {'description': VARIANTS[v][3], 'runs': per_variant[v].get('runs', 0), 'distinct': len(hashes.get(v, ()))} for v in per_variant},
        'components': SEAM_NOTE,
        'known_findings_met': listed,
        'build_s': round(built, 1),
    }
    ev = {
        'property': prop, 'tier': tier, 'seed': seed, 'level': 'exploration', 'coverage': c,
        'assumptions': [
            'Disk space is reserved when a temporary file is extended: a later write into it does not fail.',
            'Single-threaded use of each object, as the library documents.' if prop != 'C10' else 'Sequential consistency between simulated threads; data races are reported from happens-before, whatever the interleaving.',
            'glibc iconv and ICU behave as specified once opened.'],
        'wall_s': round(time.time() - t0, 1), 'violations': 1 if reported else 0,
    }
    if reported:
        ev['coverage']['violation'] = reported
    tmp = os.path.join(EVID, prop + '.json.tmp')
    json.dump(ev, open(tmp, 'w'), indent=1)
    os.replace(tmp, os.path.join(EVID, prop + '.json'))


def main():
    a = sys.argv[1:]
    if a and a[0] == 'setup':
        vs = sorted({v for p in PLAN.values() for v in p})
        build(vs)
        print('built', ' '.join(vs))
        return 0
    if len(a) > 1 and a[0] == 'run':
        tier = os.environ.get('VERIF_TIER', 'quick')
        if '--tier' in a:
            tier = a[a.index('--tier') + 1]
        return run_check(a[1], tier if tier in ('quick', 'thorough') else 'quick', int(os.environ.get('VERIF_SEED', '1') or 1))
    if len(a) > 1 and a[0] == 'replay':
        scratch = os.path.join(BUILD, 'replay.%d' % os.getpid())
        os.makedirs(scratch)
        try:
            rc, out = replay_file({}, a[1], scratch)
        finally:
            shutil.rmtree(scratch, ignore_errors=True)
        print(out)
        return rc
    print(__doc__)
    return 2


if __name__ == '__main__':
    try:
        sys.exit(main())
    except Broken as e:
        print('ERROR: %s' % e)
        sys.exit(2)
