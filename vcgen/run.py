#!/usr/bin/env python3-vt
"""Runs the check of one property: extracts verification conditions from /repo's current sources, discharges them, replays
counterexamples on the real code, writes the evidence file.   usage: run.py PROPERTY"""
import fcntl
import json
import multiprocessing
import os
import pickle
import re
import shutil
import signal
import subprocess
import sys
import tempfile
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
sys.path.insert(0, HERE)
sys.setrecursionlimit(20000)
import checks  # noqa
REPO = os.environ.get('VC_REPO', '/repo')
CLANG = 'clang++-18' if shutil.which('clang++-18') else 'clang++'
SAN = ['-fsanitize=signed-integer-overflow,shift,integer-divide-by-zero,unreachable,return,bounds,bool,enum,vla-bound,builtin', '-fsanitize-trap=all']
BASE = ['-std=c++20', '-DTOSCA_ASSERT_ENABLED', f'-I{ROOT}/stubs/cpp', f'-I{ROOT}/contracts/cpp', f'-I{REPO}/cpp', '-w']


class BuildError(Exception):
    pass


def sh(cmd, timeout=600, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, **kw)


# ------------------------------------------------------------------ C++ backend
class Cpp:
    def __init__(self, spec, work):
        self.spec, self.work = spec, work
        self.units = spec['src'] if isinstance(spec['src'], list) else [spec['src']]
        self.native = {}

    def flags(self):
        return BASE + self.spec.get('flags', [])

    def build(self):
        """returns list of (unit, llvm text)"""
        procs = []
        for u in self.units:
            name, defs = (u, []) if isinstance(u, str) else (u[0], u[1])
            out = os.path.join(self.work, f'u{len(procs)}.ll')
            cmd = [CLANG] + self.flags() + defs + ['-O1', '-g1', '-fno-exceptions', '-fno-vectorize', '-fno-slp-vectorize', '-fno-unroll-loops',
                   '-fno-strict-aliasing', '-fno-threadsafe-statics', '-fno-pic', '-DVC_EXTRACT'] + SAN + [f'{ROOT}/contracts/cpp/{name}']
            if self.spec.get('slim'):
                bc = out[:-3] + '.bc'
                lib = '/usr/lib/llvm-18/bin/'
                # functions replaced by their contract in other contracts' proofs keep their identity through the optimizer
                keep = '|'.join(['vch_', 'vcontract_', 'vinv_'] + list(self.spec.get('contracts', {})))
                mark = ''.join(f" -e '/^define .*@[A-Za-z0-9_]*{k}/s/ #\\([0-9]\\)/ noinline #\\1/'" for k in self.spec.get('contracts', {}))
                edit = f"sed -i {mark} {bc} && " if mark else ''
                full = ' '.join(cmd + ['-Xclang', '-disable-llvm-passes', '-S' if mark else '-c', '-emit-llvm', '-o', bc]) + f' && {edit}' + \
                    f'{lib}opt -passes="internalize,globaldce,default<O1>" -internalize-public-api-list=$(' + \
                    (f"grep -oE '^define [^@]*@[A-Za-z0-9_]*' {bc} | sed 's/.*@//'" if mark else f"{lib}llvm-nm --defined-only {bc} | sed 's/.* //'") + \
                    f' | grep -E "{keep}" | paste -sd,) -S {bc} -o {out}'
                p = subprocess.Popen(full, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
            else:
                p = subprocess.Popen(cmd + ['-S', '-emit-llvm', '-o', out], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
            procs.append((u, out, p))
        res = []
        for u, out, p in procs:
            o, _ = p.communicate(timeout=600)
            if p.returncode != 0:
                raise BuildError(f'extraction of {u} failed:\n' + o.decode(errors='replace')[-3000:])
            res.append((u, open(out).read()))
        return res

    def build_native(self, u, harnesses):
        """sanitized native build of the contracts on the real code, for replay"""
        key = str(u)
        if key in self.native:
            return self.native[key]
        name, defs = (u, []) if isinstance(u, str) else (u[0], u[1])
        tab = os.path.join(self.work, f'tab{len(self.native)}.cc')
        with open(tab, 'w') as f:
            f.write('struct Harness { const char* name; void (*fn)(); };\n')
            for h in harnesses:
                f.write(f'extern "C" void {h}();\n')
            f.write('extern Harness g_harnesses[];\nHarness g_harnesses[] = {' + ''.join(f'{{"{h}", {h}}}, ' for h in harnesses) + '{nullptr, nullptr}};\n')
        exe = tab[:-3]
        r = sh([CLANG] + self.flags() + defs + ['-O1', '-g1', '-fno-omit-frame-pointer', '-fno-strict-aliasing', '-fsanitize=address,signed-integer-overflow,shift,integer-divide-by-zero,unreachable,return,bounds,bool,enum,null',
                '-fno-sanitize-recover=all', f'{ROOT}/contracts/cpp/{name}', f'{ROOT}/native/vc_native.cc', tab, '-lpthread', '-o', exe])
        if r.returncode != 0:
            print('note: native replay build failed: ' + r.stdout.decode(errors='replace')[-1500:])
            exe = None
        self.native[key] = exe
        return exe

    def exec_native(self, exe, args, timeout):
        env = dict(os.environ, ASAN_OPTIONS='detect_leaks=0:alloc_dealloc_mismatch=0:allocator_may_return_null=1:max_allocation_size_mb=4096:handle_segv=1',
                   UBSAN_OPTIONS='print_stacktrace=1')
        try:
            r = subprocess.run([exe] + args, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, env=env)
            return r.returncode, r.stdout.decode(errors='replace')
        except subprocess.TimeoutExpired as e:
            return 124, (e.stdout or b'').decode(errors='replace') + '\nTIMEOUT'


def backend(spec, work):
    if spec['lang'] == 'cpp':
        return Cpp(spec, work)
    if spec['lang'] == 'go':
        import gobackend
        return gobackend.Go(spec, work, REPO, ROOT)
    raise Exception('lang')


# ------------------------------------------------------------------ verification
def verify_one(mod, h, spec, tokens, deadline, outpath, demangle, work, first=True, patience=1):
    import engine
    import loops
    cuts = {}
    for attempt in range(8):
        E = engine.Engine(mod, {'deadline': deadline, 'patience': patience, 'demangle': demangle, 'loopverbose': os.environ.get('VC_LOOPS'), **spec.get('opts', {})})
        E.tokens = tokens
        E.onfail = lambda f: dump_fail(work, h, f)
        if first and not h.startswith('vch_contract_'):
            for k, v in spec.get('contracts', {}).items():
                for n in mod.functions:
                    if k in n and v in mod.functions and not n.startswith('vc') and mod.functions[n].arity() == mod.functions[v].arity():
                        E.redirect[n] = v
        E.cuts = {k: loops.Cut(mod, k, v) for k, v in cuts.items()}
        try:
            E.run(h)
            break
        except engine.LoopLimit as e:
            E.looplimit = None
            key = loops.find_header(mod, e.fn, e.block)
            if key is None or key in cuts:
                E.undecided.append({'label': 'loop', 'where': [e.fn], 'why': e.why})
                break
            cuts[key] = loops.infer(mod, h, key, cuts, spec, tokens, deadline)
        except engine.Undecided as e:
            E.undecided.append({'label': 'execution', 'where': [], 'why': e.why})
            break
    r = E.result()
    r['looplimit'] = None
    if cuts and (E.undecided or E.failures):
        # the proof failed: look for a real counterexample with few iterations of each loop
        for lim in (2, 5):
            B = engine.Engine(mod, {'demangle': demangle, **spec.get('opts', {}), 'bounded': True, 'sym_loop_limit': lim, 'loop_limit': 40, 'deadline': min(deadline, time.time() + 60)})
            B.tokens = tokens
            B.redirect = E.redirect
            B.onfail = lambda f: dump_fail(work, h, f)
            try:
                B.run(h)
            except (engine.LoopLimit, engine.Undecided):
                pass
            r['failures'] += B.failures
            if B.failures:
                break
    r['cuts'] = [f'{k[0]}:{k[1]}' for k in cuts]
    with open(outpath, 'wb') as f:
        pickle.dump(r, f)


def dump_fail(work, h, failure):
    fd, tmp = tempfile.mkstemp(dir=work, suffix='.tmp')
    with os.fdopen(fd, 'wb') as f:
        pickle.dump((h, failure), f)
    os.rename(tmp, tmp[:-4] + '.fail')


def verify(prop, spec, be, units, work, tier, seed, on_failure, again=None, deadline=None):
    """verifies the contracts of all units, or once more with longer solver limits the ones listed in again (pairs of unit and contract)"""
    import ir
    tokens = multiprocessing.Semaphore(int(os.environ.get('VC_JOBS', '8')))
    deadline = deadline or time.time() + float(os.environ.get('VC_BUDGET', '400' if tier == 'quick' else '2400'))
    jobs = []
    for u, text in units:
        mod = ir.Module(text)
        hs = sorted(f for f in mod.functions if f.startswith('vch_'))
        only = os.environ.get('VC_ONLY')
        if only:
            hs = [h for h in hs if re.search(only, h)]
        if again is not None:
            hs = [h for h in hs if (str(u), h) in again]
        names = sorted(set(mod.functions) | mod.decls)
        try:
            r = subprocess.run(['c++filt'], input='\n'.join(names).encode(), stdout=subprocess.PIPE)
            dm = dict(zip(names, [re.sub(r'\(.*', '', x) for x in r.stdout.decode().split('\n')]))
        except Exception:
            dm = {}
        prio = spec.get('first', [])
        hs.sort(key=lambda h: (prio.index(h) if h in prio else len(prio), h))
        for h in hs:
            jobs.append((u, mod, h, dm))
    procs = {}
    res = []
    seen = set()
    found = []
    dead = {'results': {}, 'failures': [], 'covers': set(), 'undecided': [], 'solver_time': 0, 'nqueries': 0, 'vcs': 0, 'vc_syntactic': 0, 'vc_solver': 0,
            'npaths': 0, 'notes': set(), 'inlined': set(), 'cuts': []}

    def collect():
        """reap finished contracts, replay fresh counterexamples"""
        for pid in list(procs):
            try:
                p, _ = os.waitpid(pid, os.WNOHANG)
            except ChildProcessError:
                p = pid
            if p == 0:
                continue
            u, h, out = procs.pop(pid)
            try:
                with open(out, 'rb') as f:
                    r = pickle.load(f)
            except Exception:
                r = dict(dead, undecided=[{'label': 'execution', 'where': [h], 'why': 'verifier process died'}])
            res.append((u, h, r))
        for fn in sorted(os.listdir(work)):
            if fn.endswith('.fail') and fn not in seen:
                seen.add(fn)
                with open(os.path.join(work, fn), 'rb') as f:
                    h, failure = pickle.load(f)
                if len(found) < 3 and on_failure(h, failure):
                    found.append((h, failure))

    def finish(late=False):
        for pid in list(procs):
            try:
                os.killpg(pid, signal.SIGKILL)
            except OSError:
                pass
            try:
                os.waitpid(pid, 0)
            except OSError:
                pass
            u, h, out = procs.pop(pid)
            res.append((u, h, dict(dead, undecided=[{'label': 'execution', 'where': [h], 'why': 'time budget'}] if late else [])))
        return res
    for i, (u, mod, h, dm) in enumerate(jobs):
        while not tokens.acquire(timeout=0.25):
            collect()
            if found:
                return finish()
        out = os.path.join(work, f'r{i}{"" if again is None else "b"}.pkl')
        sys.stdout.flush()
        pid = os.fork()
        if pid == 0:
            try:
                os.setpgid(0, 0)
                t = time.time()
                verify_one(mod, h, spec, tokens, deadline, out, dm, work, u == units[0][0], 1 if again is None else 4)
                if os.environ.get('VC_VERBOSE'):
                    print(f'  {h}: {time.time() - t:.1f}s', flush=True)
            except BaseException:
                traceback.print_exc()
            finally:
                tokens.release()
                os._exit(0)
        procs[pid] = (u, h, out)
    while procs:
        time.sleep(0.1)
        collect()
        if found:
            return finish()
        if time.time() > deadline + 60:
            return finish(True)
    collect()
    return res


def out_of_memory(out):
    return 'AddressSanitizer: out of memory' in out or 'allocation-size-too-big' in out or 'std::bad_alloc' in out


def write_replay(path, prop, h, failure, extra=''):
    with open(path, 'w') as f:
        f.write(f'# property {prop}, contract {h}\n')
        f.write(f'# failed obligation: {failure["label"]}\n')
        for w in failure.get('where', []):
            f.write(f'#   at {w}\n')
        for l in extra.split('\n'):
            f.write('# ' + l + '\n')
        for it in failure.get('model') or []:
            if it[0] == 'any' or it[0] == 'buf':
                f.write(f'{it[0]} {it[1]} {it[2]} {it[3]}\n')
            elif it[0] == 'uf':
                f.write(f'uf {it[1]} {it[2]} {it[3]}\n')
            else:
                f.write('# ' + str(it) + '\n')


def known_findings(prop):
    out = []
    p = os.path.join(ROOT, 'known_findings.json')
    if os.path.exists(p):
        for k in json.load(open(p)):
            if k['property'] == prop and k.get('status') != 'fixed':
                out.append(k)
    return out


def main():
    prop = sys.argv[1]
    t0 = time.time()
    tier = os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    spec = checks.CHECKS[prop]
    work = tempfile.mkdtemp(prefix='vc_')
    evdir = os.path.join(ROOT, 'evidence')
    rpdir = os.path.join(evdir, 'replay')
    os.makedirs(rpdir, exist_ok=True)
    try:
        code = main2(prop, spec, work, evdir, rpdir, tier, seed, t0)
    finally:
        shutil.rmtree(work, ignore_errors=True)
    sys.exit(code)


def main2(prop, spec, work, evdir, rpdir, tier, seed, t0):
    be = backend(spec, work)
    build_s = time.time()
    res = []
    build_err = None
    try:
        units = be.build()
    except BuildError as e:
        build_err = str(e)
        units = []
    build_s = time.time() - build_s
    known = known_findings(prop)
    kf_hit = {}
    replayed = {}     # (contract, label) -> (reproduced, path)
    tried = {}

    def on_failure(h, f):
        """replays a counterexample on the real code; True when it reproduces an unlisted violation"""
        k = [x for x in known if x['contract'] == h and x['obligation'] in f['label']]
        if k:
            kf_hit[k[0]['id']] = k[0]
            return False
        key = (h, f['label'])
        if tried.get(key, 0) >= 4 or len(replayed) > 40:
            return False
        tried[key] = tried.get(key, 0) + 1
        path = os.path.join(rpdir, f'{prop}_{sum(tried.values())}.txt')
        status = 'not replayed'
        ok = False
        u = units[0][0]
        for u2, hs in be_units.items():
            if h in hs:
                u = u2
        u = next(x[0] for x in units if str(x[0]) == str(u))
        try:
            exe = be.build_native(u, be_units[str(u)])
            if exe and f.get('model') is not None:
                write_replay(path, prop, h, f)
                rc, out = be.exec_native(exe, ['replay', h, path], 60)
                ok = rc not in (0, 2, 77, 124) and not out_of_memory(out)
                status = f'native replay: exit {rc}\n' + out[-3000:]
        except Exception as e:
            status = 'replay failed: ' + repr(e)
        write_replay(path, prop, h, f, status)
        if ok or key not in replayed:
            replayed[key] = (ok, path, h, f, u)
        return ok
    be_units = {}
    for u, t in units:
        be_units[str(u)] = sorted(set(re.findall(r'^define [^@]*@(vch_\w+)\(', t, re.M)))
    if not build_err:
        res = verify(prop, spec, be, units, work, tier, seed, on_failure)
        # a busy machine can exhaust the solver limits: what was left undecided (and not refuted) gets a second, longer attempt
        slow = {(str(u), h) for u, h, r in res if r['undecided'] and not r['failures']}
        spent = time.time() - t0
        if slow and len(slow) <= 40 and not any(v[0] for v in replayed.values()) and (spent < 450 or tier != 'quick'):
            limit = time.time() + max(150.0, 620.0 - spent) if tier == 'quick' else time.time() + 1200
            better = verify(prop, spec, be, units, work, tier, seed, on_failure, slow, limit)
            res = [x for x in res if (str(x[0]), x[1]) not in slow] + better
    agg = {'vcs': 0, 'ok': 0, 'paths': 0, 'q': 0, 'st': 0.0}
    labels = {}
    by = {}
    notes = set()
    inlined = set()
    fails = []
    und = []
    contracts = []
    for u, h, r in res:
        contracts.append(h)
        agg['paths'] += r['npaths']
        agg['q'] += r['nqueries']
        agg['st'] += r['solver_time']
        notes |= r['notes']
        inlined |= r['inlined']
        for l, v in r['results'].items():
            t = labels.setdefault(f'{h}: {l}', {'vcs': 0, 'ok': 0})
            t['vcs'] += v['vcs']
            t['ok'] += v['ok']
            agg['vcs'] += v['vcs']
            agg['ok'] += v['ok']
            for n, c in v['by'].items():
                by[n] = by.get(n, 0) + c
        for f in r['failures']:
            fails.append((u, h, f))
        for x in r['undecided']:
            und.append((u, h, x))
    stopped = any(v[0] for v in replayed.values())
    # vacuity guards
    text = be.sources() if hasattr(be, 'sources') else '\n'.join(open(f'{ROOT}/contracts/cpp/{u if isinstance(u, str) else u[0]}').read() for u in be.units)
    if not build_err and not stopped and not os.environ.get('VC_ONLY'):
        want = set(re.findall(r'__vc_cover\("([^"]*)"\)', text))
        got = set()
        for u, h, r in res:
            got |= r['covers']
        for c in sorted(want - got - set(spec.get('optional_covers', []))):
            und.append((None, c, {'label': f'reachability of "{c}"', 'where': [], 'why': 'precondition or path not reachable (vacuous contract)'}))
        if not any(l.split(': ', 1)[1].startswith(('ensures', 'lemma')) for l in labels):
            und.append((None, '', {'label': 'postconditions', 'where': [], 'why': 'no postcondition was generated'}))
    # (a counterexample of an abandoned attempt, before the loops were generalised, does not count unless it reproduces)
    proved = {h for u, h, r in res if r['results'] and not r['failures'] and not r['undecided']}
    violations = [v for v in replayed.values() if v[0] or v[2] not in proved]
    # keep reproduced ones only if any
    final = [v for v in violations if v[0]]
    pending = {}
    if not final:
        for v in violations:
            pending.setdefault((str(v[4]), v[2]), v)
        for u, h, x in und:
            if u is not None:
                pending.setdefault((str(u), h), (False, None, h, {'label': x['label'], 'where': x['where'] + [x['why']], 'model': None}, u))
        # directed search for a failing input with the contract as oracle
        budget = 60.0 if tier == 'quick' else 240.0
        n = len(pending)
        for (us, h), v in list(pending.items())[:10]:
            if final:
                break
            try:
                exe = be.build_native(v[4], be_units[str(v[4])])
                if not exe:
                    continue
                rc, out = be.exec_native(exe, ['fuzz', h, str(seed), str(max(3, int(budget / max(1, min(n, 10)))))], budget + 60)
                m = re.search(r'INPUT\n(.*?)ENDINPUT', out, re.S)
                if m and rc not in (0, 2, 77) and not out_of_memory(out):
                    path = os.path.join(rpdir, f'{prop}_{len(violations)}.txt')
                    write_replay(path, prop, h, {**v[3], 'model': None}, 'input found by directed search on the real code\n' + re.sub(r'INPUT\n.*?ENDINPUT', '', out, flags=re.S)[-2500:])
                    with open(path, 'a') as f:
                        f.write(m.group(1))
                    rc2, out2 = be.exec_native(exe, ['replay', h, path], 60)
                    if rc2 not in (0, 2, 77, 124) and not out_of_memory(out2):
                        # is it the known finding?
                        lab = re.search(r'CONTRACT VIOLATED: (.*)', out2)
                        k = [x for x in known if x['contract'] == h and (lab is None or x['obligation'] in 'ensures ' + lab.group(1))]
                        if k:
                            continue
                        final.append((True, path, h, v[3], v[4]))
            except Exception as e:
                print('note: search failed:', repr(e))
    out_lines = []
    for k in known:
        if k['id'] in kf_hit:
            out_lines.append(f'KNOWN-FINDING: property={prop} {k["what"]}')
    code = 0
    if final:
        code = 1
        for ok, path, h, f, u in final[:3]:
            out_lines.append(f'failed obligation: {h}: {f["label"]}')
            out_lines.append(f'VIOLATION property={prop} replay={path}')
    elif violations or und or build_err:
        code = 1
        path = os.path.join(rpdir, f'{prop}_undischarged.txt')
        with open(path, 'w') as fo:
            if build_err:
                fo.write('contracts could not be attached to the current source:\n' + build_err + '\n')
            for ok, p2, h, f, u in violations:
                fo.write(f'failed obligation: {h}: {f["label"]}\n  at {f["where"]}\n  counterexample (not reproduced natively): {p2}\n')
                try:
                    fo.write(open(p2).read() + '\n')
                except Exception:
                    pass
            for u, h, x in und[:40]:
                fo.write(f'undischarged obligation: {h}: {x["label"]}: {x["why"]}\n  at {x["where"]}\n')
        txt = open(path).read()
        print(txt[:3000])
        out_lines.append(f'VIOLATION property={prop} replay={path} no-failing-input-found')
    ensures = sorted(l for l in labels if l.split(': ', 1)[1].startswith(('ensures', 'lemma')))
    ev = {
        'property': prop, 'tier': tier, 'seed': seed, 'level': spec.get('level', 'proof'), 'wall_s': round(time.time() - t0, 2),
        'coverage': {
            'obligations': agg['vcs'], 'discharged': agg['ok'],
            'checker_cmd': f'python3-vt {ROOT}/vcgen/run.py {prop}',
            'trusted_base': sorted(set(TRUSTED + spec.get('trusted', []) + sorted(notes))),
            'named_obligations': len(labels), 'postconditions': ensures, 'contracts': contracts,
            'functions_under_contract': spec.get('under', []),
            'functions_executed_symbolically': len(inlined), 'paths': agg['paths'], 'back_ends': by,
            'solver_queries': agg['q'], 'solver_time_s': round(agg['st'], 2), 'extraction_s': round(build_s, 2),
            'inductive_loop_cuts': sorted({c for _, _, r in res for c in r.get('cuts', [])}),
            'bounded': spec.get('bounded', []), 'undischarged': [f'{h}: {x["label"]}: {x["why"]}' for u, h, x in und[:20]],
            'known_findings': sorted(kf_hit),
        },
    }
    with open(os.path.join(evdir, f'{prop}.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    for l in out_lines:
        print(l)
    print(f'{prop}: {agg["ok"]}/{agg["vcs"]} verification conditions discharged, {len(ensures)} postconditions, {len(contracts)} contracts, {time.time() - t0:.1f}s')
    return code


TRUSTED = ['vcgen (verification condition generator, /verif/vcgen)', 'z3 and cvc5', 'clang front end and its LLVM IR optimizer (-O1)',
           'contracts and specification functions in /verif/contracts', 'stubs of the absent third-party headers in /verif/stubs']

if __name__ == '__main__':
    main()
