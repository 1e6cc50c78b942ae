#!/usr/bin/env python3
"""Driver: builds the engine and a harness group from /repo's working tree, decides one
property by symbolic execution + Z3, replays counterexamples natively, writes evidence.

usage: run.py setup | run.py PROPERTY quick|thorough
exit:  0 held on everything explored; 1 violation; 2 the check itself failed
"""
import fcntl, glob, hashlib, json, os, shutil, subprocess, sys, time

V = os.path.dirname(os.path.abspath(__file__))
REPO = '/repo'
B = os.path.join(V, '.build')
ENV = dict(os.environ, RUSTUP_TOOLCHAIN='stable-x86_64-unknown-linux-gnu', CARGO_NET_OFFLINE='true')
for k in ('RUSTFLAGS', 'CARGO_TARGET_DIR', 'RSX_INPUT', 'RSX_PARAMS'):
    ENV.pop(k, None)
T0 = time.time()
REPO_PKGS = ['xsd-types', 'xsd-macro-utils', 'xsd-parser', 'wsdl-parser']


class CheckError(Exception):
    pass


def log(*a):
    print('[%6.1fs]' % (time.time() - T0), *a, flush=True)


def sh(cmd, cwd, env=None, timeout=800):
    p = subprocess.run(cmd, cwd=cwd, env=env or ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                       timeout=timeout, text=True, errors='replace')
    return p.returncode, p.stdout


def tree_hash(roots):
    h = hashlib.sha256()
    for r in roots:
        for d, ds, fs in os.walk(r):
            ds[:] = sorted(x for x in ds if x not in ('target', '.git', 'gen_out', '.build'))
            for f in sorted(fs):
                p = os.path.join(d, f)
                if f == 'Cargo.lock' and d.startswith(V):
                    continue
                try:
                    with open(p, 'rb') as fh:
                        b = fh.read()
                except OSError:
                    continue
                h.update(p.encode() + b'\0' + str(len(b)).encode() + b'\0')
                h.update(b)
    return h.hexdigest()


def build_engine():
    rc, out = sh(['cargo', 'build', '--release', '--offline', '--quiet', '--target-dir', B + '/engine'], V + '/engine')
    if rc:
        raise CheckError('engine build failed:\n' + out[-3000:])
    return B + '/engine/release/rsx'


def read(p):
    with open(p) as f:
        return f.read()


def cargo(g, args, tdir):
    hd = V + '/harness/' + g['dir']
    shutil.copyfile(REPO + '/Cargo.lock', hd + '/Cargo.lock')
    env = dict(ENV, CARGO_TARGET_DIR=tdir, CARGO_TERM_COLOR='never')
    env.update(g.get('env', {}))
    return sh(['cargo'] + args, hd, env)


def build_group(g):
    """compile a harness group from /repo's current sources; returns (.ll, native release binary)"""
    stamp = B + '/stamp-' + g['dir'] + ('-' + g['crate'] if 'package' in g else '')
    key = tree_hash([REPO, V + '/harness/' + g['dir'], V + '/harness/rsxapi', V + '/harness/rt.c']) 
    key += hashlib.sha256(read(V + '/harness/rt.c').encode()).hexdigest()
    tdir = B + '/' + g['dir']
    deps = tdir + '/release/deps/'
    native = tdir + '/release/' + g['crate']
    if not (os.path.exists(stamp) and read(stamp) == key and os.path.exists(native)):
        # harnesses of one package share what they depend on
        if os.path.isdir(tdir) and not any(read(x) == key for x in glob.glob(B + '/stamp-' + g['dir'] + '*')):
            for p in REPO_PKGS + [g.get('package', g['crate']), 'rsxapi']:
                cargo(g, ['clean', '--offline', '--release', '-p', p], tdir)
                cargo(g, ['clean', '--offline', '-p', p], tdir)
        for f in glob.glob(deps + g['crate'] + '-*.ll'):
            os.unlink(f)
        rc, out = cargo(g, ['rustc', '--offline', '--release'] + (['--bin', g['crate']] if 'package' in g else []) + [
            '--', '--emit=llvm-ir,link', '-C', 'no-vectorize-loops', '-C', 'no-vectorize-slp'], tdir)
        if rc and 'package' in g and 'could not compile `%s` (bin' % g['package'] in out:
            # everything else compiles: what the generator made of the schema does not
            raise Unusable(g, out)
        if rc:
            raise CheckError('harness build failed:\n' + out[-6000:])
        with open(stamp, 'w') as f:
            f.write(key)
    lls = glob.glob(deps + g['crate'] + '-*.ll')
    if len(lls) != 1:
        if os.path.exists(stamp):
            os.unlink(stamp)
        raise CheckError('expected one IR file, found %r' % lls)
    return lls[0], native


class Unusable(Exception):
    """the generated code of a schema is not what the schema says, so nothing can be encoded"""


def build_dev(g):
    tdir = B + '/' + g['dir']
    rc, out = cargo(g, ['build', '--offline', '--quiet'] + (['--bin', g['crate']] if 'package' in g else []), tdir)
    if rc:
        raise CheckError('dev build failed:\n' + out[-3000:])
    return tdir + '/debug/' + g['crate']


def native_run(binary, fn, inp, params, timeout=60):
    """replay one input; returns (outcome, notes, text)"""
    p = B + '/replay-%d.in' % os.getpid()
    with open(p, 'w') as f:
        f.write(inp)
    try:
        r = subprocess.run([binary, fn], env=dict(ENV, RSX_INPUT=p, RSX_PARAMS=params, RUST_BACKTRACE='0'),
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
        rc, out = r.returncode, r.stdout.decode(errors='replace')
    except subprocess.TimeoutExpired:
        rc, out = -1000, 'timeout'
    finally:
        os.unlink(p)
    notes = [l[5:] for l in out.splitlines() if l.startswith('NOTE ')]
    if rc == 99:
        o = 'fail'
    elif rc == 77:
        o = 'assume'
    elif rc == 0:
        o = 'done'
    elif rc in (76, 75):
        o = 'mismatch'
    elif rc in (101, 134, -6, -4, -11, -1000):
        o = 'panic'
    else:
        o = 'rc%d' % rc
    return o, notes, out


def show_input(inp):
    r = []
    for l in inp.splitlines():
        if l.startswith('S '):
            try:
                r.append(repr(bytes.fromhex(l[2:].strip()))[1:])
            except ValueError:
                r.append(l)
        elif l.startswith('P '):
            r.append(l[2:].strip())
    return ' '.join(r)


def known_findings():
    p = V + '/known_findings.json'
    return json.load(open(p))['findings'] if os.path.exists(p) else []


def check(prop, tier):
    import plan
    pl = plan.PLAN[prop]
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    ev = os.path.join(V, 'evidence')
    os.makedirs(ev, exist_ok=True)
    evf = os.path.join(ev, prop + '.json')
    if os.path.exists(evf):
        os.unlink(evf)
    rdir = os.path.join(ev, 'replay', prop)
    shutil.rmtree(rdir, ignore_errors=True)
    os.makedirs(B, exist_ok=True)
    lock = open(B + '/lock', 'w')
    fcntl.flock(lock, fcntl.LOCK_EX)
    rsx = build_engine()
    log('engine built')
    if tier == 'thorough':
        rc, out = sh([rsx, 'selftest'], V)
        if rc:
            raise CheckError('engine self-test failed: ' + out[-500:])
    built, viol, notes = {}, [], []
    for gname in sorted({f.get('group', pl.get('group')) for f in pl['fns']}):
        g = plan.GROUPS[gname]
        try:
            built[gname] = build_group(g)
        except Unusable as e:
            os.makedirs(rdir, exist_ok=True)
            path = os.path.join(rdir, gname + '.txt')
            with open(path, 'w') as fh:
                fh.write('# property %s: the code generated for %s\n# does not fit its schema. The compiler says:\n%s\n' % (
                    prop, os.path.join(V, 'harness', g['dir'], 'xsd', g['crate'] + '.xsd'), e.args[1][-20000:]))
            with open(evf, 'w') as fh:
                json.dump(dict(property=prop, tier=tier, seed=seed, level='model_checking', violations=1, wall_s=round(time.time() - T0, 2),
                               coverage=dict(states=0, transitions=0, traces_validated_against_impl=0, samples=[path], exhaustive=False,
                                             unit='nothing was encoded: the generated code does not compile')), fh, indent=1)
            log('the code generated for the schema does not compile as its users need it')
            print('VIOLATION property=%s replay=%s' % (prop, path))
            return 1
        log('harness group %s built' % gname)
    fcntl.flock(lock, fcntl.LOCK_UN)
    tot, lines, funcs, samples, perfn, inc = {}, {}, set(), [], [], []
    validated = 0
    budget = pl.get('budget', {}).get(tier, 240 if tier == 'quick' else 3000)
    for f in pl['fns']:
        if tier not in f:
            continue
        gname = f.get('group', pl.get('group'))
        g = plan.GROUPS[gname]
        ll, native = built[gname]
        for params in (f[tier] if isinstance(f[tier], list) else [f[tier]]):
            out = B + '/out-%s-%d.json' % (prop, os.getpid())
            left = max(15, budget - sum(x['wall_s'] for x in perfn))
            cmd = [rsx, 'run', '--ll', ll, '--fn', f['fn'], '--out', out, '--params', params or '0',
                   '--max-time', str(int(min(left, f.get('max', {}).get(tier, left)))), '--samples', str(f.get('samples', 24))]
            if tier == 'thorough' and f.get('audit', True):
                cmd.append('--audit')
            rc, txt = sh(cmd, V, timeout=left + 300)
            if not os.path.exists(out):
                raise CheckError('engine failed on %s: %s' % (f['fn'], txt[-2000:]))
            d = json.load(open(out))
            os.unlink(out)
            c = d['counts']
            for k, v in c.items():
                if k in ('maxsym', 'maxdepth'):
                    tot[k] = max(tot.get(k, 0), v)
                else:
                    tot[k] = tot.get(k, 0) + v
            for k, v in d.get('lines', {}).items():
                if k.startswith('/repo/'):
                    lines.setdefault(k[6:], set()).update(v)
            funcs.update(d.get('functions', []))
            lim = [e for e in d['errors'] if e['what'].startswith('limit')]
            err = [e for e in d['errors'] if not e['what'].startswith('limit')]
            rec = dict(fn=f['fn'], params=params, bound=f.get('bound', ''), wall_s=d['wall_s'], paths=c['paths'], instrs=c['instrs'],
                       queries=c['queries'], sat=c['q_sat'], unsat=c['q_unsat'], unknown=c['q_unknown'],
                       solver_s=round(c['solver_ns'] / 1e9, 3), reach=d['reach'], completed=not (lim or err or c.get('unexplored') or d.get('crashed')))
            if lim or c.get('unexplored'):
                rec['limits'] = [dict(what=e['what'], count=e['count']) for e in lim]
                inc.append('%s(%s): %s, %s states unexplored' % (f['fn'], params, '; '.join(e['what'] for e in lim), c.get('unexplored')))
            perfn.append(rec)
            log('%s(%s): %d paths, %d instructions, %d queries, %.1fs%s' % (
                f['fn'], params, c['paths'], c['instrs'], c['queries'], d['wall_s'], '' if rec['completed'] else ' INCOMPLETE'))
            for i, v in enumerate(d['violations']):
                viol.append((f, gname, params, v))
            if not d['violations']:
                miss = [r for r in f.get('reach', []) if str(r) not in d['reach']]
                if miss and not rec.get('limits') and not err:
                    notes.append(('error', f['fn'], params, 'vacuous: expected point(s) %s never reached' % miss))
            if err or d.get('crashed'):
                # a construct the engine cannot execute ends only the paths that meet it
                if c['paths'] > 0 and not d.get('crashed') and d['reach']:
                    inc.append('%s(%s): paths ended at a construct outside the engine: %s' % (f['fn'], params, '; '.join('%s (%s)' % (e['what'], e['count']) for e in err[:4])))
                else:
                    notes.append(('error', f['fn'], params, err or d.get('crashed')))
            # translator validation: replay sampled paths against the natively compiled real code
            for s in d['samples']:
                o, nn, txt = native_run(native, f['fn'], s['input'], params)
                want = [x for x in s['notes'].split(',') if x] if s.get('notes') else []
                got = [x for x in nn if x]
                if o != 'done' or got != want:
                    notes.append(('error', f['fn'], params, 'native replay of a sampled path differs: %s %s want %s got %s' % (o, show_input(s['input'])[:200], want[:4], got[:4])))
                else:
                    validated += 1
                    if len(samples) < 12 or (s['notes'] and len(samples) < 40):
                        samples.append(dict(fn=f['fn'], input=show_input(s['input']), observed=[bytes.fromhex(x).decode(errors='replace')[:400] for x in got][:4]))
    # violations: replay before reporting
    kf = known_findings()
    reported, knownhits, unrepro = [], {}, []
    dev = {}
    for n, (f, gname, params, v) in enumerate(viol):
        k = next((k for k in kf if k['property'] == prop and k['status'] == 'open' and k['fn'] == f['fn'] and k['label'] == v['label']), None)
        g = plan.GROUPS[gname]
        o, nn, txt = native_run(built[gname][1], f['fn'], v['input'], params)
        o2 = None
        if o not in ('fail', 'panic') or (v['kind'] == 'panic') or not k:
            if gname not in dev:
                dev[gname] = build_dev(g)
            o2, nn2, txt2 = native_run(dev[gname], f['fn'], v['input'], params)
            if o not in ('fail', 'panic'):
                txt = txt2
        rep = 'release: %s%s' % (o, '' if o2 is None else ', dev: ' + o2)
        if 'fail' not in (o, o2) and 'panic' not in (o, o2):
            unrepro.append('%s %s: %s does not reproduce natively (%s) input %s' % (f['fn'], v['kind'], v['label'], rep, show_input(v['input'])[:300]))
            continue
        if k:
            knownhits[k['id']] = (k, v)
            continue
        os.makedirs(rdir, exist_ok=True)
        path = os.path.join(rdir, '%d.txt' % n)
        with open(path, 'w') as fh:
            fh.write('# property %s, harness %s (group %s), params %s\n# %s: %s (%d paths)\n# native replay: %s\n# input: %s\n' % (
                prop, f['fn'], gname, params, v['kind'], v['label'].replace('\n', ' '), v['count'], rep, show_input(v['input'])))
            for x in v['notes'].split(','):
                if x:
                    fh.write('# note: %s\n' % bytes.fromhex(x).decode(errors='replace').replace('\n', '\n#       '))
            fh.write('# replay: RSX_PARAMS=%s RSX_INPUT=<this file> .build/%s/release/%s %s\n' % (params, g['dir'], g['crate'], f['fn']))
            fh.write(v['input'])
            if txt:
                fh.write('\n' + '\n'.join('# ' + l for l in txt.splitlines()[-20:]) + '\n')
        reported.append((path, f, params, v, rep, txt))
    cov = dict(
        states=tot.get('paths', 0), transitions=tot.get('sym_branches', 0) + tot.get('forks', 0),
        traces_validated_against_impl=validated,
        samples=samples[:20],
        exhaustive=all(x['completed'] for x in perfn),
        unit='states = execution paths of the compiled code (each a class of inputs); transitions = branch decisions on symbolic conditions',
        harnesses=perfn,
        queries=dict(total=tot.get('queries', 0), sat=tot.get('q_sat', 0), unsat=tot.get('q_unsat', 0), unknown=tot.get('q_unknown', 0),
                     cached=tot.get('q_cached', 0), solver_s=round(tot.get('solver_ns', 0) / 1e9, 2), audited=tot.get('audited', 0)),
        branch_sides_refuted=dict(by_byte_domains=tot.get('pruned_domain', 0), by_ranges=tot.get('pruned_range', 0), linear=tot.get('lin_cmp', 0),
                                  discharged_linear=tot.get('lin_discharged', 0)),
        instructions=tot.get('instrs', 0), panics_reached=tot.get('panics', 0), obligations=tot.get('obligations', 0),
        concretized=tot.get('concretized', 0), incomplete=inc,
        repo_functions=sorted(x for x in funcs if any(p.replace('-', '_') in x for p in REPO_PKGS))[:200],
        repo_functions_encoded=len([x for x in funcs if any(p.replace('-', '_') in x for p in REPO_PKGS)]), functions_encoded=len(funcs),
        repo_lines_executed={k: len(v) for k, v in sorted(lines.items())},
        known_findings=[k for k in knownhits],
    )
    e = dict(property=prop, tier=tier, seed=seed, level='model_checking', coverage=cov, assumptions=pl.get('assumptions', []) + plan.COMMON_ASSUMPTIONS,
             wall_s=round(time.time() - T0, 2), violations=len(reported))
    with open(evf, 'w') as fh:
        json.dump(e, fh, indent=1)
    for k, v in knownhits.values():
        print('KNOWN-FINDING: property=%s %s' % (prop, k['what']))
    for i in inc:
        log('INCOMPLETE (not a pass beyond what was explored): ' + i)
    for path, f, params, v, rep, txt in reported:
        log('%s %s(%s): %s | input %s | %s' % (v['kind'], f['fn'], params, v['label'], show_input(v['input'])[:300], rep))
        print('VIOLATION property=%s replay=%s' % (prop, path), flush=True)
    for u in unrepro:
        log('NOT REPRODUCED: ' + u)
    for x in notes:
        log('ERROR', *x)
    if reported:
        return 1
    if unrepro or notes:
        return 2
    log('%s %s: held on everything explored (%d paths, %d validated natively)' % (prop, tier, tot.get('paths', 0), validated))
    return 0


def main():
    sys.path.insert(0, V)
    sys.dont_write_bytecode = True
    try:
        if sys.argv[1] == 'setup':
            import plan
            os.makedirs(B, exist_ok=True)
            build_engine()
            for g in plan.GROUPS.values():
                build_group(g)
            log('setup done')
            return 0
        return check(sys.argv[1], sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick'))
    except CheckError as e:
        log('CHECK ERROR: %s' % e)
        return 2


sys.exit(main())
