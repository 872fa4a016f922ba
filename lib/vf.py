#!/usr/bin/env python3
"""Deductive contract checker driver.   usage: vf.py check <property> [--unit U] [-v]

Every run:  /repo/mdbx.c (current working tree)
   -> copy with loop contracts attached (annotate.py)
   -> goto-cc of ONE translation unit = that copy + the contract units of the property
   -> per unit: goto-instrument (callee replacement by contract stubs, slicing, DFCC loop contracts)
   -> cbmc discharges every generated obligation
Exit 0: all discharged.  Exit 1 + VIOLATION line: a named obligation fails.  Exit 2: no answer.
"""
import concurrent.futures as cf
import hashlib
import importlib.util
import json
import os
import re
import resource
import shutil
import subprocess
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get('VF_REPO', '/repo')
sys.path.insert(0, HERE)
import annotate  # noqa: E402

# functions that never return: reaching them is a failed obligation
PANICS = ['panic_at', 'panic_at_obj', 'panic_at_fmt', 'panic_fmt', 'osal_panic', 'vf_assert_fail', 'mdbx_panic',
          'panic_fmt_checker', '__assert_fail']
# logging: no effect on the verified state
LOGS = ['debug_log', 'debug_log_va', 'debug_log_sub']

VERBOSE = False
T0 = time.time()
BUDGET = float(os.environ.get('VF_BUDGET', '840'))


def log(*a):
    print('[%6.1fs]' % (time.time() - T0), *a, file=sys.stderr, flush=True)


def run(cmd, timeout=None, cwd=None, mem_gb=None, env=None):
    def lim():
        os.setsid()
        if mem_gb:
            resource.setrlimit(resource.RLIMIT_AS, (int(mem_gb * 2**30), int(mem_gb * 2**30)))
    t = time.time()
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, cwd=cwd, preexec_fn=lim, env=env)
    try:
        out, err = p.communicate(timeout=timeout)
        return p.returncode, out.decode('utf8', 'replace'), err.decode('utf8', 'replace'), time.time() - t
    except subprocess.TimeoutExpired:
        try:
            os.killpg(p.pid, 9)
        except ProcessLookupError:
            pass
        p.communicate()
        return -99, '', 'timeout', time.time() - t


class CheckError(Exception):
    pass


class Unit:
    """One function contract.

    harness   C function stating the contract (in props/<file>.c)
    fn        real functions whose bodies are verified by this unit
    stubs     {callee: contract stub} - callee replaced by its contract
    loops     [(function, n, clauses)] - loop contracts; makes the unit unbounded
    unwind    loop unwinding limit (unwinding assertions stay on)
    bounded   None, or the text of the bound when this unit is only a bounded stand-in
    find      dict(unwind=..) settings of the counterexample search
    """

    def __init__(self, name, harness=None, fn=(), stubs=None, loops=(), unwind=None, unwindset=None, bounded=None,
                 find=None, objbits=10, flags=(), timeout=400, tier='quick', dfcc=None, backend=None, needs_reach=True,
                 drop=(), native=True, extra_roots=(), keep_panic=(), mem_gb=14, ignore=(), enforce=None, replace=(), sat='minisat', preunwind=None):
        self.preunwind = dict(preunwind or {})  # loops to unwind before the loop contracts are applied
        self.name = name
        self.harness = harness or 'h_' + name
        self.fn = [fn] if isinstance(fn, str) else list(fn)
        self.stubs = dict(stubs or {})
        self.loops = list(loops)
        self.unwind = unwind
        self.unwindset = dict(unwindset or {})
        self.bounded = bounded
        self.find = find
        self.objbits = objbits
        self.flags = list(flags)
        self.timeout = timeout
        self.tier = tier
        self.dfcc = bool(loops) or bool(enforce) if dfcc is None else dfcc
        self.backend = backend
        self.needs_reach = needs_reach
        self.drop = list(drop)
        self.native = native
        self.extra_roots = list(extra_roots)
        self.keep_panic = set(keep_panic)
        self.mem_gb = mem_gb
        self.ignore = list(ignore)
        self.enforce = enforce
        self.replace = list(replace)
        self.sat = sat


class Build:
    def __init__(self, prop, cfile, mod, work):
        self.prop, self.cfile, self.mod, self.work = prop, cfile, mod, work
        self.cg = {}
        self.compile_s = 0.0

    def flags(self, target, extra=()):
        return ['-I' + HERE, '-I' + os.path.join(VERIF, 'props'), '-I' + REPO, '-DVF_TARGET="%s"' % target] + \
            list(getattr(self.mod, 'CFLAGS', [])) + list(extra)

    def goto(self, name, target, extra=()):
        out = os.path.join(self.work, name + '.gb')
        rc, o, e, s = run(['goto-cc'] + self.flags(target, extra) + ['-c', self.cfile, '-o', out], timeout=600)
        self.compile_s += s
        if rc != 0 or not os.path.exists(out):
            return None, (o + e)[-3000:]
        return out, ''

    def callgraph(self, gb):
        rc, o, e, s = run(['goto-instrument', '--call-graph', gb], timeout=300)
        g = {}
        for line in o.splitlines():
            if ' -> ' in line:
                a, b = line.strip().split(' -> ')
                g.setdefault(a, set()).add(b)
        rc, o, e, s = run(['goto-instrument', '--list-goto-functions', gb], timeout=300)
        names = set(m.group(1) for m in re.finditer(r'(?m)^(\S+) /\*', o))
        return g, names


def closure(g, roots, stubs, stop):
    seen, st = set(), list(roots)
    while st:
        x = stubs.get(st[-1], st[-1])
        st.pop()
        if x in seen:
            continue
        seen.add(x)
        if x in stop:
            continue
        st.extend(g.get(x, ()))
    return seen


def parse_json(o):
    try:
        return json.loads(o)
    except ValueError:
        i = o.rfind('\n]')
        if i > 0:
            try:
                return json.loads(o[:i + 2])
            except ValueError:
                pass
    return None


def prepare(b, gb, g, names, u, mode, work):
    """instrument one unit; returns path or raises CheckError"""
    base = os.path.join(work, '%s.%s' % (u.name, mode))
    a = base + '.a.gb'
    rc, o, e, s = run(['goto-cc', '--function', u.harness, gb, '-o', a], timeout=200)
    if rc:
        raise CheckError('goto-cc --function %s: %s' % (u.harness, (o + e)[-500:]))
    stop = (set(PANICS) - u.keep_panic) | set(LOGS) | set(u.drop)
    stubs = {k: v for k, v in u.stubs.items() if k in names or True}
    roots = [u.harness] + u.extra_roots + list(stubs.values())
    keep = closure(g, roots, stubs, stop)
    keep -= stop
    keep -= set(stubs)
    for k in stubs.values():
        if k not in names:
            raise CheckError('stub %s missing' % k)
    rx = '(?!(?:%s|__CPROVER.*)$).*' % '|'.join(sorted(re.escape(k) for k in keep if re.match(r'^[\w.$]+$', k)))
    bb = base + '.b.gb'
    cmd = ['goto-instrument']
    for k, v in stubs.items():
        if k in names:
            cmd += ['--replace-calls', '%s:%s' % (k, v)]
    if len(cmd) > 1:
        rc, o, e, s = run(cmd + [a, bb], timeout=200)
        if rc:
            raise CheckError('replace-calls: ' + (o + e)[-500:])
    else:
        os.rename(a, bb)
    cc = base + '.c.gb'
    rc, o, e, s = run(['goto-instrument', '--remove-function-body-regex', rx, bb, cc], timeout=200)
    if rc:
        raise CheckError('slice1: ' + (o + e)[-500:])
    dd = base + '.d.gb'
    rc, o, e, s = run(['goto-instrument', '--drop-unused-functions', '--slice-global-inits', cc, dd], timeout=200)
    if rc:
        raise CheckError('slice2: ' + (o + e)[-500:])
    ee = base + '.e.gb'
    rc, o, e, s = run(['goto-instrument', '--generate-function-body', '|'.join(sorted(set(PANICS) - u.keep_panic)),
                       '--generate-function-body-options', 'assert-false-assume-false', dd, ee], timeout=200)
    if rc:
        raise CheckError('panics: ' + (o + e)[-500:])
    cur = ee
    if LOGS:
        e2 = base + '.e2.gb'
        rc, o, e, s = run(['goto-instrument', '--generate-function-body', '|'.join(sorted(set(LOGS))),
                           '--generate-function-body-options', 'havoc,params:vf_none,globals:vf_none', cur, e2],
                          timeout=200)
        if rc == 0:
            cur = e2
    if mode == 'prove' and u.dfcc:
        e3 = base + '.e3.gb'
        rc, o, e, s = run(['goto-instrument', '--generate-function-body', 'vf_nd_.*|vf_nondet_.*',
                           '--generate-function-body-options', 'nondet-return', cur, e3], timeout=200)
        if rc:
            raise CheckError('inputs: ' + (o + e)[-500:])
        cur = e3
        if u.preunwind:
            e4 = base + '.e4.gb'
            cmd = ['goto-instrument', '--unwinding-assertions']
            for k, v in goto_loops(b, cur, u.preunwind):
                cmd += ['--unwindset', '%s:%d' % (k, v)]
            rc, o, e, s = run(cmd + [cur, e4], timeout=200)
            if rc:
                raise CheckError('preunwind: ' + (o + e)[-500:])
            cur = e4
        f = base + '.f.gb'
        cmd = ['goto-instrument', '--dfcc', u.harness]
        if u.enforce:
            cmd += ['--enforce-contract', u.enforce]
        for r in u.replace:
            cmd += ['--replace-call-with-contract', r]
        if u.loops:
            cmd += ['--apply-loop-contracts']
        rc, o, e, s = run(cmd + [cur, f], timeout=300)
        if rc:
            raise CheckError('dfcc: ' + (o + e)[-800:])
        cur = f
    for x in (a, bb, cc, dd):
        if os.path.exists(x):
            os.unlink(x)
    return cur


def goto_loops(b, gb, want):
    """loops made by a backward `goto label` in a function: {'func@label': k} -> [(loop id, k)]"""
    src = open(os.path.join(b.work, 'mdbx_annotated.c'), encoding='utf8').read().split('\n')
    rc, o, e, s = run(['goto-instrument', '--show-loops', gb], timeout=100)
    out = []
    for m in re.finditer(r'(?m)^Loop (\S+?)\.(\d+):\n\s+file \S+ line (\d+)', o):
        for key, k in want.items():
            f, label = key.split('@')
            if m.group(1) == f and re.search(r'\bgoto\s+%s\b' % label, src[int(m.group(3)) - 1]):
                out.append(('%s.%s' % (f, m.group(2)), k))
    return out


def cbmc(u, gb, mode, timeout, extra=()):
    cmd = ['cbmc', gb, '--json-ui', '--object-bits', str(u.objbits), '--no-signed-overflow-check',
           '--no-undefined-shift-check']
    st = u if mode == 'prove' else None
    uw, uws = u.unwind, u.unwindset
    if mode == 'find' and u.find:
        uw = u.find.get('unwind', uw)
        uws = u.find.get('unwindset', uws)
    if uw:
        cmd += ['--unwind', str(uw)]
    for k, v in uws.items():
        cmd += ['--unwindset', '%s:%d' % (k, v)]
    cmd += u.flags + list(extra)
    if u.backend and mode == 'prove':
        cmd += u.backend.split()
        rc, o, e, s = run(cmd, timeout=timeout, mem_gb=u.mem_gb)
        return rc, o, e, s, cmd
    first, second = ([], ['--sat-solver', 'cadical'])
    if u.sat == 'cadical':
        first, second = second, first
    rc, o, e, s, cmd = race([cmd + first, cmd + second], timeout, u.mem_gb)
    return rc, o, e, s, cmd


def race(cmds, timeout, mem_gb, head=25):
    """the same obligations by two SAT back ends: the second starts when the first is slow; the first answer counts"""
    import tempfile
    t0 = time.time()

    def lim():
        os.setsid()
        resource.setrlimit(resource.RLIMIT_AS, (int(mem_gb * 2**30), int(mem_gb * 2**30)))
    procs = []

    def start(cmd):
        fo, fe = tempfile.TemporaryFile(), tempfile.TemporaryFile()
        procs.append((subprocess.Popen(cmd, stdout=fo, stderr=fe, preexec_fn=lim), fo, fe, cmd))

    def text(f):
        f.seek(0)
        return f.read().decode('utf8', 'replace')
    start(cmds[0])
    try:
        while True:
            live = 0
            for p, fo, fe, cmd in procs:
                if p.poll() is None:
                    live += 1
                elif p.returncode in (0, 10):
                    return p.returncode, text(fo), text(fe), time.time() - t0, cmd
            el = time.time() - t0
            if len(procs) == 1 and len(cmds) > 1 and (el > head or not live):
                start(cmds[1])
            elif not live:
                p, fo, fe, cmd = procs[-1]
                return p.returncode, text(fo), text(fe), el, cmd
            if el > timeout:
                return -99, '', 'timeout', el, procs[0][3]
            time.sleep(0.05)
    finally:
        for p, fo, fe, cmd in procs:
            if p.poll() is None:
                try:
                    os.killpg(p.pid, 9)
                except ProcessLookupError:
                    pass
                p.wait()
            fo.close()
            fe.close()


def classify(u, rc, o, e):
    js = parse_json(o)
    if js is None:
        return dict(status='error', detail='cbmc rc=%s %s' % (rc, (e or o[-400:]).strip()[-600:]))
    results, msgs, nobody = None, [], set()
    for x in js:
        if 'result' in x:
            results = x['result']
        if 'messageText' in x:
            m = re.search(r'no body for (?:function|callee) (\S+)', x['messageText'])
            if m:
                nobody.add(m.group(1).strip("'\""))
            if x.get('messageType') in ('ERROR',):
                msgs.append(x['messageText'])
    if results is None:
        return dict(status='error', detail='no result: rc=%s %s' % (rc, ' '.join(msgs)[:600]))
    obl = disc = 0
    fails, unw, reach_ok, reach_bad = [], [], [], []
    for r in results:
        d = r.get('description', '')
        if 'VFREACH:' in d:
            nm = d.split('VFREACH:')[1].strip()
            if r['status'] == 'FAILURE':
                reach_ok.append(nm)
            elif r['status'] == 'SUCCESS':
                reach_bad.append(nm)
            else:
                unw.append(dict(property=r['property'], description=d, status=r['status'], line=None, function=None))
            continue
        if '.no-body.' in r['property']:
            nm = r['property'].split('.no-body.')[1]
            if not nm.startswith('vf_'):
                nobody.add(nm)
            continue
        obl += 1
        if r['status'] == 'SUCCESS':
            disc += 1
            continue
        ent = dict(property=r['property'], description=d, status=r['status'],
                   line=r.get('sourceLocation', {}).get('line'), function=r.get('sourceLocation', {}).get('function'))
        if r['status'] != 'FAILURE':
            unw.append(ent)
        elif 'unwinding assertion' in d or '.recursion' in r['property']:
            unw.append(ent)
        else:
            fails.append(ent)
    fails = [f for f in fails if not any(re.search(p, f['property'] + ' ' + f['description']) for p in u.ignore)]
    return dict(status='done', obligations=obl, discharged=disc, fails=fails, unwind_fails=unw, reach_ok=reach_ok,
                reach_bad=reach_bad, nobody=sorted(nobody))


LOOPKIND = re.compile(r'\.(loop_invariant_base|loop_invariant_step|loop_assigns|loop_decreases|loop_step_unwinding|assigns)\.|'
                      r'^__CPROVER_contracts')


def do_unit(b, ctx, u, mode, timeout):
    t = time.time()
    try:
        gb = prepare(b, ctx['gb'], ctx['g'], ctx['names'], u, mode, b.work)
    except CheckError as ex:
        return dict(unit=u.name, status='error', detail=str(ex), wall=time.time() - t, solver=0)
    rc, o, e, s, cmd = cbmc(u, gb, mode, timeout)
    r = classify(u, rc, o, e)
    r.update(unit=u.name, wall=time.time() - t, solver=s, gb=gb, cmd=' '.join(cmd), mode=mode)
    if rc == -99:
        r['detail'] = 'timeout after %ds' % timeout
    return r


# ---------------------------------------------------------------- counterexample extraction / replay

def bits_to_bytes(v):
    """json value -> little endian hex bytes"""
    if v is None:
        return ''
    if 'elements' in v:
        els = sorted(v['elements'], key=lambda e: e['index'])
        xs = [flat(e['value']) for e in els]
        return None if None in xs else ''.join(xs)
    if 'binary' in v:
        bn = v['binary']
        n = (len(bn) + 7) // 8
        return int(bn, 2).to_bytes(n, 'little').hex() if bn else ''
    return None


def flat(v):
    if v is None:
        return None
    if 'member' in v:  # union: one member of the full width
        return flat(v['member'].get('value'))
    if 'members' in v:
        out = ''
        for m in v['members']:
            x = flat(m['value'])
            if x is None:
                return None
            out += x
        return out
    return bits_to_bytes(v)


def extract_inputs(trace, harness):
    """values returned by vf_nd_<name>() calls"""
    vals = {}
    for st in trace:
        if st.get('stepType') != 'assignment':
            continue
        lhs = st.get('lhs', '')
        m = re.match(r'^return_value_vf_nd_L\d+_(\w+)$', lhs) or re.match(r'^goto_symex\$\$return_value\$\$vf_nd_L\d+_(\w+)$', lhs)
        if m:
            x = flat(st.get('value'))
            if x is not None:
                vals[m.group(1)] = x
            continue
    return vals


def native_build(b, mod):
    exe = {}
    return exe


def replay_native(b, u, vals, tag):
    """compile the same contract text with gcc against /repo's current source and run it on the values"""
    src = os.path.join(b.work, 'replay_%s.c' % u.name)
    with open(src, 'w') as f:
        f.write('#define VF_NATIVE 1\n#define VF_FIND 1\n#include "%s"\n' % b.cfile)
        f.write('struct vf_val { const char *name; const char *hex; };\nconst struct vf_val vf_vals[] = {\n')
        for k, v in vals.items():
            f.write('  {"%s", "%s"},\n' % (k, v))
        f.write('  {0, 0}};\nextern int vf_failures; extern void vf_patch(void *, void *);\nint main(void) {\n')
        for k, v in u.stubs.items():
            f.write('  vf_patch((void *)%s, (void *)%s);\n' % (k, v))
        f.write('  %s();\n  return vf_failures ? 1 : 0;\n}\n' % u.harness)
    exe = os.path.join(b.work, 'replay_%s' % u.name)
    cmd = ['gcc', '-std=gnu2x', '-O0', '-g', '-w', '-fno-inline', '-fsanitize=address', '-fsanitize-recover=address'] + \
        b.flags(os.path.join(REPO, 'mdbx.c')) + [src, os.path.join(HERE, 'vf_native.c'), '-o', exe, '-lpthread', '-lm']
    rc, o, e, s = run(cmd, timeout=200)
    if rc:
        return dict(built=False, confirmed=False, output=(o + e)[-1500:])
    env_cwd = os.path.join(b.work, 'cwd_%s' % u.name)
    os.makedirs(env_cwd, exist_ok=True)
    rc, o, e, s = run([exe], timeout=60, cwd=env_cwd, env=dict(os.environ, ASAN_OPTIONS='detect_leaks=0'))
    out = (o + e)[-3000:]
    confirmed = 'REPLAY-FAILED-POSTCONDITION' in o or 'AddressSanitizer' in e or rc in (-11, -6, 134, 139)
    if 'precondition not met' in e:
        confirmed = False
    return dict(built=True, confirmed=confirmed, rc=rc, output=out, cmd=' '.join(cmd))


def main_check(prop, only=None, keep=False):
    global T0
    T0 = time.time()
    tier = os.environ.get('VERIF_TIER', 'quick')
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    seed = int(os.environ.get('VERIF_SEED', '0') or 0)
    pdir = os.path.join(VERIF, 'props')
    spec = importlib.util.spec_from_file_location('prop_' + prop, os.path.join(pdir, prop + '.py'))
    mod = importlib.util.module_from_spec(spec)
    mod.Unit = Unit
    spec.loader.exec_module(mod)
    units = [u for u in mod.UNITS if (tier == 'thorough' or u.tier == 'quick') and (not only or u.name in only)]
    work = os.path.join(VERIF, '.build', '%s-%d' % (prop, os.getpid()))
    shutil.rmtree(work, ignore_errors=True)
    os.makedirs(work)
    cfile = os.path.join(pdir, getattr(mod, 'CFILE', prop + '.c'))
    b = Build(prop, cfile, mod, work)
    try:
        return check(b, prop, mod, units, tier, seed)
    finally:
        if not keep and not os.environ.get('VF_KEEP'):
            shutil.rmtree(work, ignore_errors=True)


def check(b, prop, mod, units, tier, seed):
    src = open(os.path.join(REPO, 'mdbx.c'), encoding='utf8').read()
    anns, missing = [], []
    for u in units:
        anns += [l for l in u.loops if l not in anns]
    notes = []
    for member in getattr(mod, 'MEMBER_INDEX', []):
        src, k = annotate.member_index(src, member)
        notes.append('%d subscripts E->%s[I] read as *(E->%s + (I))' % (k, member, member))
    asrc, missing = annotate.annotate(src, anns)
    target = os.path.join(b.work, 'mdbx_annotated.c')
    open(target, 'w', encoding='utf8').write(asrc)
    # the un-annotated text, next to the same copy of the internal header
    plain = os.path.join(b.work, 'mdbx_plain.c')
    open(plain, 'w', encoding='utf8').write(src)
    hdr = open(os.path.join(REPO, 'mdbx-internals.h'), encoding='utf8').read()
    hdr, n = annotate.pointer_disp(hdr)
    if not n and os.environ.get('VF_NODISP') is None:
        notes.append('ptr_disp() is not in its usual form: left as written')
    if os.environ.get('VF_NODISP') is None:
        open(os.path.join(b.work, 'mdbx-internals.h'), 'w', encoding='utf8').write(hdr)
    log('%s: compiling (%d units, %d loop contracts)' % (prop, len(units), len(anns)))
    with cf.ThreadPoolExecutor(2) as ex:
        gb, err = b.goto('prove', target)
    loop_mode = True
    if gb is None and anns:
        notes.append('loop contracts no longer type-check against the current loops; bounded stand-ins used: ' +
                     err[-300:])
        log(notes[-1])
        loop_mode = False
        gb, err = b.goto('prove', plain)
    if gb is None:
        log(err)
        raise CheckError('translation unit does not compile: ' + err[-500:])
    g, names = b.callgraph(gb)
    ctx = dict(gb=gb, g=g, names=names)
    fctx = {}

    def find_ctx():
        if not fctx:
            x, er = b.goto('find', plain, ['-DVF_FIND=1'])
            if x is None:
                raise CheckError('find build failed: ' + er[-300:])
            gg, nn = b.callgraph(x)
            fctx.update(gb=x, g=gg, names=nn)
        return fctx

    log('compiled in %.1fs' % b.compile_s)
    missf = set((m[0], m[1]) for m in missing)
    prove, fallback = [], []
    for u in units:
        if u.loops and (not loop_mode or any((l[0], l[1]) in missf for l in u.loops)):
            fallback.append(u)
        else:
            prove.append(u)
    results = {}
    jobs = int(os.environ.get('VF_JOBS', '8'))

    def remaining():
        return max(20, BUDGET - (time.time() - T0))

    def work1(u):
        r = do_unit(b, ctx, u, 'prove', min(u.timeout, remaining()))
        log('%-28s %-6s obl=%s/%s %.1fs %s' % (u.name, r['status'], r.get('discharged'), r.get('obligations'), r['wall'],
                                             r.get('detail', '') or ''))
        if VERBOSE or r['status'] != 'done' or r.get('fails') or r.get('unwind_fails') or r.get('reach_bad'):
            for f in (r.get('fails') or [])[:20]:
                log('    FAIL', f['property'], f['description'], 'line', f['line'])
            for f in (r.get('unwind_fails') or [])[:20]:
                log('    UNWIND/UNKNOWN', f['property'], f['status'])
            for f in (r.get('reach_bad') or []):
                log('    UNREACHABLE', f)
        return r

    with cf.ThreadPoolExecutor(jobs) as ex:
        for u, r in zip(prove, ex.map(work1, prove)):
            results[u.name] = r
    # -- decide
    viol, undecided, bounded_now = [], [], []
    second = []
    for u in prove:
        r = results[u.name]
        if r['status'] != 'done':
            second.append((u, 'undecided'))
        elif r['fails']:
            hard = [f for f in r['fails'] if not LOOPKIND.search(f['property'])]
            second.append((u, 'hard' if hard else 'loop'))
        elif r['reach_bad']:
            second.append((u, 'hard'))
        elif r['unwind_fails']:
            second.append((u, 'unwind'))
        elif u.needs_reach and not r['reach_ok']:
            undecided.append((u, 'no vacuity guard was evaluated'))
    second += [(u, 'loop') for u in fallback]

    def work2(x):
        u, why = x
        if not u.find and (u.loops or why == 'undecided'):
            return u, why, None, None
        try:
            fc = fctx
            uu = u
            r2 = do_unit(b, fc, uu, 'find', min(u.timeout, max(60, remaining() - 60)))
        except CheckError as ex:
            return u, why, dict(status='error', detail=str(ex)), None
        log('find %-24s %-6s fails=%s %.1fs %s' % (u.name, r2['status'], len(r2.get('fails') or []), r2['wall'],
                                                   r2.get('detail', '') or ''))
        rep = None
        if r2['status'] == 'done' and r2['fails']:
            pid = [f['property'] for f in r2['fails']]
            pid.sort(key=lambda p: ('assertion' not in p))
            ex2 = ['--trace', '--property', pid[0]]
            rc, o, e, s, cmd = cbmc(u, r2['gb'], 'find', min(u.timeout, max(60, remaining() - 40)), ex2)
            js = parse_json(o)
            vals = {}
            for y in js or []:
                for rr in y.get('result', []) if isinstance(y, dict) else []:
                    if rr.get('trace') and rr.get('property') == pid[0]:
                        vals = extract_inputs(rr['trace'], u.harness)
            rep = dict(property=pid[0], inputs=vals)
            if vals and u.native:
                rep['native'] = replay_native(b, u, vals, prop)
        return u, why, r2, rep

    if second:
        try:
            find_ctx()
        except CheckError as ex:
            notes.append(str(ex))
        if fctx:
            with cf.ThreadPoolExecutor(jobs) as ex:
                outs = list(ex.map(work2, second))
        else:
            outs = [(u, why, None, None) for u, why in second]
        for u, why, r2, rep in outs:
            r = results.get(u.name) or dict(unit=u.name, status='fallback', wall=0, solver=0, fails=[])
            results[u.name] = r
            r['second'] = {k: (r2 or {}).get(k) for k in ('status', 'fails', 'unwind_fails', 'detail', 'obligations',
                                                         'discharged', 'solver')} if r2 else None
            fails2 = (r2 or {}).get('fails') or []
            if fails2:
                viol.append((u, r.get('fails') or fails2, rep, r2))
            elif why == 'hard':
                viol.append((u, r['fails'] or [dict(property='vacuity', description='unreachable: ' + x)
                                               for x in r['reach_bad']], rep, r2))
            elif r2 and r2['status'] == 'done' and not (r2.get('unwind_fails')) and not r2.get('reach_bad'):
                bounded_now.append(u.name)
                r['obligations'], r['discharged'] = r2['obligations'], r2['discharged']
                r['nobody'] = r2.get('nobody')
                notes.append('%s: unbounded proof not available on this tree (%s); bounded stand-in passed (%s)' %
                             (u.name, why, (u.find or {}).get('bound', 'unwind %s' % (u.find or {}).get('unwind'))))
            elif r2 and r2['status'] == 'done' and not fails2:
                # no violation up to the unwinding limit: bounded evidence only
                bounded_now.append(u.name)
                r['obligations'], r['discharged'] = r2['obligations'], r2['discharged']
                notes.append('%s: %s; nothing failed up to the unwinding bound' % (u.name, why))
            else:
                undecided.append((u, '%s / %s' % (r.get('detail', why), (r2 or {}).get('detail'))))
    # -- known findings
    known = load_known(prop)
    out_viol, out_known = [], []
    for u, fails, rep, r2 in viol:
        rest = []
        for f in fails:
            k = [x for x in known if x.get('unit') == u.name and re.search(x['obligation'], f['description'])]
            if k:
                out_known.append((k[0], f))
            else:
                rest.append(f)
        if rest:
            out_viol.append((u, rest, rep, r2))
    # -- evidence
    tot = sum((results[u.name].get('obligations') or 0) for u in units if u.name in results)
    dis = sum((results[u.name].get('discharged') or 0) for u in units if u.name in results)
    per = []
    nobody = set()
    for u in units:
        r = results.get(u.name, {})
        nobody |= set(r.get('nobody') or [])
        per.append(dict(unit=u.name, functions=u.fn, obligations=r.get('obligations'), discharged=r.get('discharged'),
                        seconds=round(r.get('wall', 0), 1), solver_seconds=round(r.get('solver', 0), 1),
                        backend=u.backend or ('cbmc, CaDiCaL' if 'cadical' in (r.get('cmd') or '') else 'cbmc, MiniSat2'), loop_contracts=len(u.loops),
                        callee_contracts=u.stubs, kind='bounded' if (u.bounded or u.name in bounded_now) else 'proved',
                        bound=u.bounded or ((u.find or {}).get('bound', 'unwind') if u.name in bounded_now else None),
                        status=r.get('status'), vacuity_guards=len(r.get('reach_ok') or [])))
    pobl = sum(p['obligations'] or 0 for p in per if p['kind'] == 'proved')
    pdis = sum(p['discharged'] or 0 for p in per if p['kind'] == 'proved')
    bobl = sum(p['obligations'] or 0 for p in per if p['kind'] == 'bounded')
    bdis = sum(p['discharged'] or 0 for p in per if p['kind'] == 'bounded')
    ev = dict(property=prop, tier=tier, seed=seed, level=getattr(mod, 'LEVEL', 'proof'),
              coverage=dict(obligations=pobl, discharged=pdis,
                            bounded_obligations=bobl, bounded_discharged=bdis,
                            functions_under_contract=sorted(set(f for u in units for f in u.fn)),
                            functions_proved=sorted(set(f for u, p in zip(units, per) if p['kind'] == 'proved' for f in u.fn)),
                            functions_bounded_only=sorted(
                                set(f for u, p in zip(units, per) if p['kind'] == 'bounded' for f in u.fn) -
                                set(f for u, p in zip(units, per) if p['kind'] == 'proved' for f in u.fn)),
                            units=per, compile_seconds=round(b.compile_s, 1),
                            solver_seconds=round(sum(p['solver_seconds'] for p in per), 1),
                            checker_cmd='goto-cc | goto-instrument [--dfcc --apply-loop-contracts] | cbmc 6.11 '
                                        '(per unit; see units)',
                            source_sha256=hashlib.sha256(src.encode()).hexdigest(),
                            trusted_base=['cbmc/goto-cc 6.11.0 (C semantics, x86-64 LP64 little-endian)',
                                          'contract text in /verif/props'] + list(getattr(mod, 'TRUSTED', [])),
                            bodies_not_available=sorted(nobody), notes=notes),
              assumptions=list(getattr(mod, 'ASSUMPTIONS', [])),
              wall_s=round(time.time() - T0, 1), violations=len(out_viol))
    rc = 0
    rdir = os.path.join(VERIF, 'evidence', 'replay')
    for k, f in out_known:
        print('KNOWN-FINDING: property=%s %s' % (prop, k['what']))
    if out_viol:
        os.makedirs(rdir, exist_ok=True)
        rc = 1
        for u, fails, rep, r2 in out_viol:
            path = os.path.join(rdir, '%s-%s.json' % (prop, u.name))
            conf = bool(rep and rep.get('native') and rep['native'].get('confirmed'))
            json.dump(dict(property=prop, unit=u.name, functions=u.fn, failed_obligations=fails,
                           counterexample=rep, search=(r2 or {}).get('fails'), confirmed_on_real_code=conf,
                           verifier_cmd=results[u.name].get('cmd'), verifier_output=results[u.name].get('detail')),
                      open(path, 'w'), indent=1)
            for f in fails[:3]:
                print('  failed obligation: unit=%s %s: %s (mdbx.c line %s)' %
                      (u.name, f['property'], f['description'], f.get('line')))
            print('VIOLATION property=%s replay=%s%s' % (prop, os.path.relpath(path, VERIF),
                                                         '' if conf else ' no-failing-input-found'))
    elif undecided:
        rc = 2
        for u, why in undecided:
            print('UNDECIDED unit=%s: %s' % (u.name, why))
    if undecided:
        ev['coverage']['undecided'] = ['%s: %s' % (u.name, w) for u, w in undecided]
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    if not os.environ.get('VF_NOEVIDENCE'):
        json.dump(ev, open(os.path.join(VERIF, 'evidence', prop + '.json'), 'w'), indent=1)
    print('%s: %s  units=%d proved-obligations=%d/%d bounded=%d/%d wall=%.0fs' %
          (prop, {0: 'HOLDS', 1: 'VIOLATED', 2: 'UNDECIDED'}[rc], len(units), pdis, pobl, bdis, bobl, time.time() - T0))
    return rc


def load_known(prop):
    p = os.path.join(VERIF, 'known_findings.json')
    if not os.path.exists(p):
        return []
    return [x for x in json.load(open(p)).get('findings', []) if x['property'] == prop and x.get('status') != 'fixed']


if __name__ == '__main__':
    a = sys.argv[1:]
    if '-v' in a:
        VERBOSE = True
        a.remove('-v')
    only = None
    if '--unit' in a:
        i = a.index('--unit')
        only = a[i + 1].split(',')
        del a[i:i + 2]
    if '--tier' in a:
        i = a.index('--tier')
        os.environ['VERIF_TIER'] = a[i + 1]
        del a[i:i + 2]
    if a and a[0] == 'setup':
        missing = [t for t in ('goto-cc', 'goto-instrument', 'cbmc', 'gcc') if not shutil.which(t)]
        print('missing tools: %s' % missing if missing else 'tools present')
        sys.exit(1 if missing else 0)
    if a and a[0] == 'check':
        try:
            sys.exit(main_check(a[1], only))
        except CheckError as ex:
            print('ERROR: %s' % ex)
            sys.exit(2)
    print(__doc__)
    sys.exit(2)
