"""run the generated cases of one property; used by the checks and by replay"""
import importlib, os, signal, sys, tempfile, time, traceback, json
from rac.core import Bad, REPO, Skip, rng_for, jsonable


def one(prop, seed, i):
    """('ok'|'skip'|'bad'|'undecided', detail)"""
    mod = importlib.import_module('rac.props.' + prop.lower())
    try:
        mod.case(rng_for(prop, seed, i), i)
        return 'ok', None
    except Bad as b:
        return 'bad', {'clause': b.clause, 'input': jsonable(b.info)}
    except Skip as s:
        return 'skip', str(s)
    except Exception as ex:
        text = traceback.format_exc()[-1500:]
        ours, where, info = inside(ex)
        if ours:
            # raised by the code under test where the contract expects an answer
            return 'bad', {'clause': f'raised {type(ex).__name__}: {str(ex)[:200]} in {where}',
                           'input': jsonable({**info, 'traceback': text})}
        return 'undecided', text


def inside(ex):
    """did the code under test raise this itself (and not the harness, nor a library called by the harness)?"""
    here = os.path.dirname(os.path.abspath(__file__)) + os.sep
    code = os.path.join(os.path.realpath(REPO), 'pynare') + os.sep
    last, where, info = None, None, {}
    tb = ex.__traceback__
    while tb is not None:
        f = tb.tb_frame
        name = os.path.realpath(f.f_code.co_filename)
        if name.startswith(here):
            last = 'harness'
            if isinstance(f.f_locals.get('info'), dict):
                info = f.f_locals['info']
        elif name.startswith(code):
            last, where = 'code', f'{name[len(code):]}:{f.f_code.co_qualname}'
        tb = tb.tb_next
    return last == 'code', where, info


def _worker(prop, seed, idx, deadline, path):
    """one case after another; each outcome is a line of the result file"""
    bad = 0
    with open(path, 'w') as f:
        for i in idx:
            if time.time() > deadline or bad >= 3:
                break
            k, d = one(prop, seed, i)
            bad += k == 'bad'
            f.write(json.dumps([i, k, d if k in ('bad', 'undecided') else None]) + '\n')
            f.flush()


def run(prop, seed, n, budget, jobs=None, start=0, grace=60):
    importlib.import_module('rac.props.' + prop.lower())
    import pynare
    jobs = jobs or min(8, os.cpu_count() or 1)
    deadline = time.time() + budget
    tot = {'ok': 0, 'skip': 0, 'undecided': 0, 'bad': [], 'why': None}
    with tempfile.TemporaryDirectory(prefix='rac_') as tmp:
        procs = {}
        for j in range(jobs):
            idx, path = range(start + j, n, jobs), os.path.join(tmp, str(j))
            if not idx:
                continue
            sys.stdout.flush()
            sys.stderr.flush()
            pid = os.fork()
            if pid == 0:
                code = 1
                try:
                    _worker(prop, seed, idx, deadline, path)
                    code = 0
                except BaseException:
                    traceback.print_exc()
                finally:
                    os._exit(code)
            procs[pid] = path
        live, pos = set(procs), {}
        paths = list(procs.values())

        def read():
            for p in paths:
                if not os.path.exists(p):
                    continue
                with open(p) as f:
                    f.seek(pos.get(p, 0))
                    text = f.read()
                whole = text[:text.rfind('\n') + 1]
                pos[p] = pos.get(p, 0) + len(whole.encode())
                for line in whole.splitlines():
                    i, k, d = json.loads(line)
                    if k == 'bad':
                        tot['bad'].append((i, d))
                    else:
                        tot[k] += 1
                        if k == 'undecided':
                            tot['why'] = d
        while live:
            for pid in list(live):
                if os.waitpid(pid, os.WNOHANG)[0]:
                    live.discard(pid)
            read()
            if live and (len(tot['bad']) >= 3 or time.time() > deadline + grace):
                # enough is known, or a case never ends
                if time.time() > deadline + grace:
                    tot['undecided'] += len(live)
                    tot['why'] = tot['why'] or 'a case did not end in time'
                for pid in live:
                    os.kill(pid, signal.SIGKILL)
                for pid in live:
                    os.waitpid(pid, 0)
                live = set()
            time.sleep(.05)
        read()
    return tot


if __name__ == '__main__':
    prop, n = sys.argv[1], int(sys.argv[2])
    seed = int(sys.argv[3]) if len(sys.argv) > 3 else 1
    t = time.time()
    r = run(prop, seed, n, 600)
    print(prop, {k: v for k, v in r.items() if k not in ('bad', 'why')}, f'{time.time() - t:.1f}s')
    if r['why']:
        print('UNDECIDED', r['why'])
    for i, d in sorted(r['bad'], key=lambda x: x[0])[:2]:
        print('BAD', i, json.dumps(d)[:1500])
