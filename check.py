#!/usr/bin/env python3
"""Runs the monitor of one property against /repo's working tree.
usage: check.py ID [--tier quick|thorough] [--seed N] [--cases N] [--case K] [--jobs N]"""
import sys, os, json, re, subprocess, hashlib, time, shutil, argparse, struct, glob
from concurrent.futures import ThreadPoolExecutor

V = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('DEVIL_REPO', '/repo')
D = REPO + '/DevIL'
sys.path.insert(0, V)
from props import CHECKS

LIBS = ['-lpng', '-lz', '-ljpeg', '-ltiff', '-lmng', '-llcms2', '-lsquish', '-lm', '-lpthread']
SAN = ['-fsanitize=address,bounds,null,integer-divide-by-zero,return,vla-bound', '-fno-sanitize-recover=all']
BASE = ['-g1', '-w', '-fno-omit-frame-pointer', '-DHAVE_CONFIG_H', '-DNDEBUG']
CONFIGS = {
    'asan':  BASE + ['-O1'] + SAN,
    'zero':  BASE + ['-O1', '-ftrivial-auto-var-init=zero'] + SAN,
    'pat':   BASE + ['-O1', '-ftrivial-auto-var-init=pattern'] + SAN,
    'plain': BASE + ['-O2'],
}

class BuildError(Exception):
    pass

def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **kw)

def config_h(bdir):
    """the IL config header: the one cmake made if it is there, otherwise one made from the template"""
    inc = D + '/src-IL/include'
    if os.path.exists(inc + '/config.h'):
        return []
    out = bdir + '/cfg'
    os.makedirs(out, exist_ok=True)
    on = {'IL_NO_EXR': '1', 'IL_NO_JP2': '1', 'IL_NO_WDP': '1', 'IL_USE_DXTC_SQUISH': '', 'LCMS_NODIRINCLUDE': ''}
    txt = open(inc + '/config.h.cmake.in').read()
    def r(m):
        return '#define %s %s' % (m.group(1), on[m.group(1)]) if m.group(1) in on else '/* #undef %s */' % m.group(1)
    txt = re.sub(r'#\s*cmakedefine\s+(\w+).*', r, txt)
    open(out + '/config.h', 'w').write(txt)
    return ['-I' + out]

def sources():
    r = []
    for d in ('src-IL', 'src-ILU', 'src-ILUT'):
        r += sorted(glob.glob('%s/%s/src/*.cpp' % (D, d)))
    return r

def incs(bdir):
    return ['-I' + D + '/include', '-I' + D + '/src-IL/include', '-I' + D + '/src-ILU/include', '-I' + D + '/src-ILUT/include'] + config_h(bdir)

def srchash(flags):
    h = hashlib.sha256(repr(flags).encode())
    for root in ('include', 'src-IL', 'src-ILU', 'src-ILUT'):
        for dp, dn, fn in sorted(os.walk(D + '/' + root)):
            dn.sort()
            for f in sorted(fn):
                if f.endswith(('.h', '.cpp', '.c', '.in')):
                    p = dp + '/' + f
                    h.update(p[len(D):].encode()); h.update(open(p, 'rb').read())
    return h.hexdigest()[:20]

def build_lib(config, jobs=8):
    flags = CONFIGS[config]
    bdir = '%s/build/%s-%s' % (V, config, srchash(flags))
    if os.path.exists(bdir + '/ok'):
        return bdir
    for old in glob.glob('%s/build/%s-*' % (V, config)):
        if time.time() - os.path.getmtime(old) > 600:
            shutil.rmtree(old, ignore_errors=True)
    tmp = bdir + '.tmp%d' % os.getpid()
    shutil.rmtree(tmp, ignore_errors=True)
    os.makedirs(tmp)
    inc = incs(tmp)
    def cc(src):
        o = tmp + '/' + os.path.basename(os.path.dirname(os.path.dirname(src))) + '_' + os.path.basename(src) + '.o'
        r = sh(['g++'] + flags + inc + ['-c', src, '-o', o])
        return src, r.returncode, r.stdout.decode(errors='replace')
    with ThreadPoolExecutor(jobs) as ex:
        for src, rc, out in ex.map(cc, sorted(sources(), key=lambda s: -os.path.getsize(s))):
            if rc:
                raise BuildError('%s: %s' % (src, out[-3000:]))
    open(tmp + '/ok', 'w').close()
    try:
        os.rename(tmp, bdir)
    except OSError:
        shutil.rmtree(tmp, ignore_errors=True)
    return bdir

def build_harness(name, srcs, config, bdir, extra=()):
    san = SAN if config != 'plain' else []
    base = ['-g1', '-O1', '-w', '-std=gnu++17'] + san + list(extra)
    hh = hashlib.sha256(repr(base).encode())
    for f in sorted(glob.glob(V + '/harness/*')):
        hh.update(open(f, 'rb').read())
    exe = '%s/%s-%s' % (bdir, name, hh.hexdigest()[:12])
    if os.path.exists(exe):
        return exe
    def cc(s):
        o = '%s/h_%s_%s_%d.o' % (bdir, name, os.path.basename(s), os.getpid())
        r = sh(['g++'] + base + ['-I' + V + '/harness'] + incs(bdir) + ['-c', V + '/harness/' + s, '-o', o])
        return s, o, r.returncode, r.stdout.decode(errors='replace')
    objs = []
    with ThreadPoolExecutor(8) as ex:
        for s, o, rc, out in ex.map(cc, ['vh.cpp'] + list(srcs)):
            if rc:
                raise BuildError('%s: %s' % (s, out[-3000:]))
            objs.append(o)
    r = sh(['g++'] + san + ['-o', exe + '.tmp%d' % os.getpid()] + objs + sorted(glob.glob(bdir + '/src-*.o')) + LIBS)
    for o in objs:
        os.unlink(o)
    if r.returncode:
        raise BuildError('link: ' + r.stdout.decode(errors='replace')[-3000:])
    os.rename(exe + '.tmp%d' % os.getpid(), exe)
    return exe

FRAME = re.compile(r'#\d+ 0x[0-9a-f]+ in (.+?) ((?:/[^\s:]+)+)(?::(\d+))?')
def crash_key(rec):
    log = rec['log']
    kind = None
    m = re.search(r'ERROR: AddressSanitizer: ([\w-]+)', log)
    if m:
        kind = m.group(1)
        if kind == 'attempting':
            kind = re.search(r'attempting ([\w-]+)', log).group(1)
        if kind == 'SEGV':
            kind = 'segv'
    else:
        m = re.search(r'runtime error: ([^\n]*)', log)
        if m:
            t = m.group(1)
            kind = 'index-out-of-bounds' if 'index' in t else 'div-by-zero' if 'division' in t else 'null' if 'null' in t else 'ub'
    if kind is None:
        sig = rec['status'] & 127
        kind = 'signal-%d' % sig if sig else 'exit-%d' % (rec['status'] >> 8)
    fn = '?'
    for m in FRAME.finditer(log):
        if '/src-IL' in m.group(2):
            fn = re.sub(r'\(.*', '', m.group(1)); break
    if fn == '?':
        m = re.search(r'([\w./-]*src-IL\w*/[\w/.-]+):(\d+)', log)
        if m:
            fn = os.path.basename(m.group(1))
    return 'crash:%s:%s:%s' % (rec['phase'] or '-', kind, fn)

def load_known(pid):
    known = []
    p = V + '/known_findings.txt'
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r'known:\s+property=(\S+)\s+key=(\S+)\s+(.*)', line)
            if m and m.group(1) == pid:
                known.append((m.group(2), m.group(3)))
    return known

def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('id')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED', '1') or 1))
    ap.add_argument('--cases', type=int)
    ap.add_argument('--case', type=int)
    ap.add_argument('--from', dest='frm', type=int)
    ap.add_argument('--jobs', type=int, default=8)
    ap.add_argument('--only')
    ap.add_argument('--keys', action='store_true', help='print every violation key')
    ap.add_argument('--arg', action='append', default=[], help='name=value given to the harness')
    a = ap.parse_args()
    pid = a.id
    t0 = time.time()
    chk = CHECKS[pid]
    os.makedirs(V + '/evidence/replays', exist_ok=True)
    os.makedirs(V + '/build', exist_ok=True)
    run = '%s/build/run-%s-%d' % (V, pid, os.getpid())
    shutil.rmtree(run, ignore_errors=True)
    os.makedirs(run)
    try:
        rc = go(a, pid, chk, run, t0)
    finally:
        shutil.rmtree(run, ignore_errors=True)
    sys.exit(rc)

def go(a, pid, chk, run, t0):
    parts = chk['parts']
    if a.only:
        parts = [p for p in parts if p['name'] == a.only]
    viols, errors, counts, evals, aborted, dist, samples, notes = [], [], {}, 0, 0, set(), [], []
    bcache = {}
    for part in parts:
        config = part.get('config', 'asan')
        try:
            if config not in bcache:
                bcache[config] = build_lib(config, a.jobs)
            exe = build_harness(part['name'], part['src'], config, bcache[config])
        except BuildError as e:
            print('BUILD ERROR', e, file=sys.stderr)
            return 3
        cases = a.cases or part['cases'][1 if a.tier == 'thorough' else 0]
        ns = min(a.jobs, max(1, cases))
        if a.case is not None:
            ns = 1
        procs = []
        for s in range(ns):
            tmp = '%s/%s-%d' % (run, part['name'], s)
            os.makedirs(tmp)
            cmd = [exe, '--seed=%d' % a.seed, '--tier=' + a.tier, '--cases=%d' % cases, '--shard=%d' % s, '--nshards=%d' % ns,
                   '--out=' + tmp + '/out', '--tmp=' + tmp, '--dist=' + tmp + '/dist', '--batch=%d' % part.get('batch', 200), '--data=' + V + '/data']
            cmd += part.get('args', []) + ['--' + x for x in a.arg]
            if a.case is not None:
                cmd += ['--case=%d' % a.case, '--v']
            env = dict(os.environ)
            env['ASAN_OPTIONS'] = 'detect_leaks=0:allocator_may_return_null=1:abort_on_error=0:exitcode=99:handle_abort=1:detect_stack_use_after_return=0:max_allocation_size_mb=2000:malloc_context_size=8:quarantine_size_mb=16:symbolize=1'
            env['UBSAN_OPTIONS'] = 'print_stacktrace=1'
            env['LC_ALL'] = 'C'
            env['TZ'] = 'UTC'
            procs.append((tmp, subprocess.Popen(cmd, env=env, cwd=tmp, stdout=None if a.case is not None else subprocess.DEVNULL, stderr=None if a.case is not None else open(tmp + '/err', 'w'))))
        for tmp, p in procs:
            rc = p.wait()
            ended = False
            for line in (open(tmp + '/out') if os.path.exists(tmp + '/out') else []):
                try:
                    r = json.loads(line)
                except ValueError:
                    continue
                r['part'] = part['name']
                if r['t'] == 'viol':
                    viols.append(r)
                elif r['t'] == 'crash':
                    r['key'] = crash_key(r); r['msg'] = first_report(r['log'])
                    viols.append(r)
                elif r['t'] == 'error':
                    errors.append(r['msg'])
                elif r['t'] == 'sample':
                    samples.append('[%s] %s' % (part['name'], r['s']))
                elif r['t'] == 'note':
                    notes.append(r['msg'])
                elif r['t'] == 'end':
                    ended = True
                    evals += r['evals']; aborted += r['aborted']
                    for k, v in r['counts'].items():
                        counts[k] = counts.get(k, 0) + v
            if os.path.exists(tmp + '/dist'):
                b = open(tmp + '/dist', 'rb').read()
                dist.update((part['name'], x) for x in struct.unpack('<%dQ' % (len(b) // 8), b))
            if rc != 0 or not ended:
                errors.append('shard %s ended with %s: %s' % (tmp, rc, open(tmp + '/err').read()[-1500:] if os.path.exists(tmp + '/err') else ''))
    known = load_known(pid)
    seen_known, fresh = {}, {}
    for v in viols:
        for k, what in known:
            if re.fullmatch(k, v['key']):
                seen_known.setdefault(k, 0); seen_known[k] += 1
                break
        else:
            fresh.setdefault(v['key'], []).append(v)
    # floors: a run that observed nothing is void
    if a.case is None and not a.cases and not a.only:
        for k, n in chk.get('floors', {}).items():
            if counts.get(k, 0) < n and not fresh:
                errors.append('observed only %d of %s (need %d)' % (counts.get(k, 0), k, n))
    wall = time.time() - t0
    ev = {'property': pid, 'tier': a.tier if a.tier in ('quick', 'thorough') else 'quick', 'seed': a.seed, 'level': chk.get('level', 'exploration'),
          'coverage': {'evaluations': evals, 'distinct_nontrivial': len(dist), 'rule': chk['rule'], 'samples': samples[:12] or ['none'],
                       'observed': dict(sorted(counts.items())), 'cases_ended_early_by_violation': aborted,
                       'known_findings_seen': seen_known, 'notes': notes},
          'assumptions': chk.get('assumptions', []), 'wall_s': round(wall, 2), 'violations': sum(len(x) for x in fresh.values())}
    if a.case is None:
        tmp = '%s/evidence/%s.json.tmp%d' % (V, pid, os.getpid())
        json.dump(ev, open(tmp, 'w'), indent=1)
        os.rename(tmp, '%s/evidence/%s.json' % (V, pid))
    if a.keys:
        for k, l in sorted(fresh.items()):
            print('KEY %s x%d case=%s ctx=%s :: %s' % (k, len(l), l[0]['case'], l[0].get('ctx', ''), l[0]['msg'][:300]))
    for k, what in known:
        print('KNOWN-FINDING: property=%s %s (seen %d times in this run)' % (pid, what, seen_known.get(k, 0)))
    rc = 0
    if fresh:
        for n, (k, l) in enumerate(sorted(fresh.items())):
            if n >= 40:
                print('... %d more kinds' % (len(fresh) - n)); break
            v = l[0]
            rp = '%s/evidence/replays/%s-%s.json' % (V, pid, hashlib.sha1(k.encode()).hexdigest()[:10])
            json.dump({'property': pid, 'key': k, 'part': v['part'], 'seed': a.seed, 'tier': a.tier, 'case': v['case'], 'batch_start': v.get('batch'), 'msg': v['msg'], 'context': v.get('ctx', ''), 'input_hex': v.get('input', ''), 'log': v.get('log', ''),
                       'replay_cmd': 'python3 %s/check.py %s --only %s --tier %s --seed %d --case %d' % (V, pid, v['part'], a.tier, a.seed, v['case'])}, open(rp, 'w'), indent=1)
            print('VIOLATION property=%s replay=%s' % (pid, rp))
            print('  %s (x%d): %s [%s]' % (k, len(l), v['msg'][:400].replace('\n', ' '), v.get('ctx', '')[:200]))
        rc = 1
    elif errors:
        for e in errors[:5]:
            print('CHECK ERROR:', e)
        rc = 3
    print('%s: %d cases, %d distinct, %d violations, %.1fs' % (pid, evals, len(dist), sum(len(x) for x in fresh.values()), wall))
    return rc

def first_report(log):
    m = re.search(r'(ERROR: AddressSanitizer[^\n]*|[^\n]*runtime error:[^\n]*)', log)
    s = m.group(1) if m else log[-300:]
    fr = [re.sub(r'\(.*', '', f.group(1)) + '@' + os.path.basename(f.group(2)) + ':' + (f.group(3) or '') for f in FRAME.finditer(log)][:6]
    return s + ' | ' + ' < '.join(fr)

if __name__ == '__main__':
    main()
