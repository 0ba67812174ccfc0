"""One check: the obligations of a property's contracts are generated from the current
source and discharged; the executable contracts are then run on generated inputs."""
import argparse, hashlib, importlib, json, os, sys, time, traceback, multiprocessing as mp, queue

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BUDGET = {'quick': dict(prove=330, rac=150, hunt=150), 'thorough': dict(prove=1500, rac=1500, hunt=600)}


def in_child(fn, args, limit):
    """run fn in a forked child with a wall-clock limit: ('ok', value) | ('timeout', None) | ('crash', text)"""
    ctx = mp.get_context('fork')
    q = ctx.Queue()

    def go():
        try:
            q.put(('ok', fn(*args)))
        except BaseException:
            q.put(('crash', traceback.format_exc()[-3000:]))
    p = ctx.Process(target=go)
    p.start()
    end = time.time() + limit
    r = None
    while time.time() < end:
        try:
            r = q.get(timeout=min(1., max(.01, end - time.time())))
            break
        except queue.Empty:
            if not p.is_alive():
                try:
                    r = q.get(timeout=1)
                except queue.Empty:
                    r = ('crash', f'process ended with {p.exitcode}')
                break
    if r is None:
        r = ('timeout', None)
    if p.is_alive():
        p.join(2)
        if p.is_alive():
            p.kill()
    p.join()
    return r


def prove(prop, tier, budget):
    """obligations of the property's contracts, or [] when it has none"""
    try:
        mod = importlib.import_module('pv.contracts.' + prop.lower())
    except ModuleNotFoundError as ex:
        if ex.name != 'pv.contracts.' + prop.lower() and ex.name != 'pv.contracts':
            raise
        return None
    return mod


def run_proofs(prop, tier, budget):
    mod = prove(prop, tier, budget)
    if mod is None:
        return None
    from pv import obl
    units = mod.units()
    return obl.run_units(prop, units, budget)


def save(prop, tag, payload):
    d = os.path.join(HERE, 'evidence', 'replay')
    os.makedirs(d, exist_ok=True)
    h = hashlib.sha1(json.dumps(payload, sort_keys=True, default=str).encode()).hexdigest()[:10]
    path = os.path.join(d, f'{prop}-{tag}-{h}.json')
    with open(path, 'w') as f:
        json.dump(payload, f, indent=1, default=str)
    return path


def known(prop):
    path = os.path.join(HERE, 'known-findings.txt')
    out = []
    if os.path.exists(path):
        for l in open(path):
            l = l.strip()
            if l.startswith('{'):
                d = json.loads(l)
                if d.get('property') == prop and d.get('kind') == 'finding':
                    out.append(d)
    return out


def replay(prop, path):
    from rac import runner
    d = json.load(open(path))
    if 'case' not in d:
        print(json.dumps(d, indent=1)[:4000])
        print('this replay names a failed obligation; it carries no failing input')
        return 1
    k, det = runner.one(d['property'], d['case']['seed'], d['case']['index'])
    print(k, json.dumps(det, indent=1)[:4000])
    if k == 'bad':
        print(f'VIOLATION property={prop} replay={path}')
        return 1
    return 0


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('property')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--replay')
    ap.add_argument('--no-rac', action='store_true')
    ap.add_argument('--no-proof', action='store_true')
    a = ap.parse_args()
    prop, tier = a.property, a.tier if a.tier in BUDGET else 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    if a.replay:
        sys.exit(replay(prop, a.replay))
    t0 = time.time()
    B = BUDGET[tier]
    sys.path.insert(0, HERE)
    from rac import runner

    # 1. obligations
    proofs, note = None, None
    if not a.no_proof:
        k, v = in_child(run_proofs, (prop, tier, B['prove']), B['prove'] + 60)
        if k == 'ok':
            proofs = v
        else:
            note = f'obligations not generated ({k}): {v}'
            proofs = []
    t1 = time.time()

    # 2. executable contracts on generated inputs
    mod = importlib.import_module('rac.props.' + prop.lower())
    n = mod.QUICK if tier == 'quick' else mod.THOROUGH
    rac = {'ok': 0, 'skip': 0, 'undecided': 0, 'bad': [], 'why': None}
    if not a.no_rac:
        k, v = in_child(runner.run, (prop, seed, n, B['rac']), B['rac'] + 90)
        if k == 'ok':
            rac = v
        else:
            rac['why'] = f'{k}: {v}'
    refuted = [o for o in (proofs or []) if o['status'] == 'refuted']
    open_ = [o for o in (proofs or []) if o['status'] not in ('proved', 'refuted')]
    # an obligation that is not discharged on this tree: look longer for an input that shows why
    if (refuted or open_) and not rac['bad'] and not a.no_rac:
        extra = B['hunt'] if refuted else B['hunt'] / 2
        k, v = in_child(runner.run, (prop, seed, n * 20, extra, None, n), extra + 60)
        if k == 'ok':
            for key in ('ok', 'skip', 'undecided'):
                rac[key] += v[key]
            rac['bad'] += v['bad']
            rac['why'] = rac['why'] or v['why']

    # 3. verdict
    lines, violations = [], 0
    finds = known(prop)
    for f in finds:
        lines.append(f"KNOWN-FINDING: property={prop} {f['what']}")
    failed_names = [f"{o['function']}: {o['name']}" for o in refuted + open_]
    fresh = [(i, d) for i, d in sorted(rac['bad'], key=lambda x: x[0])
             if not any(f.get('clause') and d['clause'].startswith(f['clause']) for f in finds)]
    if fresh:
        i, d = fresh[0]
        path = save(prop, 'case', {'property': prop, 'clause': d['clause'], 'input': d['input'],
                                   'case': {'seed': seed, 'index': i},
                                   'failed_obligations': failed_names,
                                   'rerun': f'bin/check {prop} --replay <this file>'})
        lines.append(f"  {prop}: {d['clause'][:300]}")
        for nm in failed_names[:5]:
            lines.append(f'  failed obligation: {nm}')
        lines.append(f'VIOLATION property={prop} replay={path}')
        violations = len(fresh)
    elif refuted:
        o = refuted[0]
        path = save(prop, 'obligation', {'property': prop, 'obligation': f"{o['function']}: {o['name']}",
                                         'failed': refuted, 'verifier_output': o.get('detail')})
        lines.append(f"  failed obligation: {o['function']}: {o['name']}")
        lines.append(f'VIOLATION property={prop} replay={path} no-failing-input-found')
        violations = len(refuted)

    # 4. evidence
    explored = rac['ok']
    proved = [o for o in (proofs or []) if o['status'] == 'proved']
    level = getattr(prove(prop, tier, 0), 'LEVEL', 'proof') if proofs is not None and prove(prop, tier, 0) else 'exploration'
    cov = {
        'evaluations': rac['ok'] + rac['skip'] + rac['undecided'] + len(rac['bad']),
        'distinct_nontrivial': rac['ok'] + len(rac['bad']),
        'rule': ' '.join((mod.__doc__ or '').split()) + '; inputs drawn from (property, seed, index); a drawn input '
                'outside the statement\'s domain is skipped and not counted as non-trivial',
        'samples': samples(prop, seed),
    }
    assumptions = []
    if proofs is not None:
        pm = prove(prop, tier, 0)
        cov.update({
            'obligations': len(proofs), 'discharged': len(proved),
            'checker_cmd': f'bin/check {prop} --tier {tier} --no-rac',
            'trusted_base': list(getattr(pm, 'TRUSTED', [])) + TRUSTED,
            'functions_under_contract': sorted({o['function'] for o in proofs}),
            'back_ends': tally(proofs, 'backend'), 'solver_seconds': round(sum(o.get('time', 0) for o in proofs), 2),
            'not_discharged': [{k: o.get(k) for k in ('function', 'name', 'status', 'detail')} for o in refuted + open_],
            'obligation_list': [f"{o['function']}: {o['name']} [{o['status']}, {o.get('backend')}]" for o in proofs],
            'bounded_stand_in': 'run-time contract checking on the counted generated inputs; not counted as proved',
        })
        assumptions = list(getattr(pm, 'ASSUMES', []))
        if not proofs or len(proved) < len(proofs):
            # the deductive part did not go through on this source: what stands is the bounded part
            cov['degraded'] = note or 'some obligations were not discharged on this source'
            if not proved:
                level = 'exploration'
    if rac['why']:
        cov['undecided_cases'] = {'count': rac['undecided'], 'example': rac['why'][-600:]}
    ev = {'property': prop, 'tier': tier, 'seed': seed, 'level': level, 'coverage': cov,
          'assumptions': assumptions, 'wall_s': round(time.time() - t0, 2), 'violations': violations}
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    with open(os.path.join(HERE, 'evidence', f'{prop}.json'), 'w') as f:
        json.dump(ev, f, indent=1, default=str)
    print(f"{prop} [{tier}] obligations {len(proved)}/{len(proofs or [])} discharged ({t1 - t0:.1f}s); "
          f"cases {rac['ok']} held, {rac['skip']} out of domain, {rac['undecided']} undecided, "
          f"{len(rac['bad'])} refuted ({time.time() - t1:.1f}s)")
    if note:
        print('note:', note[-1500:])
    for o in (refuted + open_)[:12]:
        print(f"  not discharged [{o['status']}] {o['function']}: {o['name']}: {str(o.get('detail'))[:300]}")
    if rac['why']:
        print('  undecided case:', rac['why'][-400:].replace('\n', ' | '))
    for l in lines:
        print(l)
    if violations:
        sys.exit(1)
    if not explored and not proved:
        print('nothing could be explored')
        sys.exit(2)
    sys.exit(0)


TRUSTED = ['CPython 3.12 as the semantics of the executed source', 'z3 4.x as back end',
           'pv (this repository\'s symbolic execution layer)']


def tally(os_, key):
    out = {}
    for o in os_:
        if o['status'] == 'proved':
            out[o.get(key) or '?'] = out.get(o.get(key) or '?', 0) + 1
    return out


def samples(prop, seed, k=2):
    """two of this run's inputs, as drawn"""
    from rac import core
    mod = importlib.import_module('rac.props.' + prop.lower())
    out = []
    sink = core.SAMPLE
    for i in range(6):
        sink.clear()
        try:
            mod.case(core.rng_for(prop, seed, i), i)
        except core.Skip:
            continue
        except BaseException as ex:
            if isinstance(ex, (KeyboardInterrupt, SystemExit)):
                raise
        if sink:
            out.append({'index': i, 'input': core.trim(core.jsonable(sink[-1]))})
        if len(out) >= k:
            break
    return out or [{'index': 0, 'input': f'rng_for({prop!r}, {seed}, 0)'}]


if __name__ == '__main__':
    main()
