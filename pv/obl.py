"""run the units of a property in forked workers and collect their obligations"""
import json, os, sys, tempfile, time, traceback


def _one(u, path, deadline):
    t = time.time()
    try:
        obs = u.explore(deadline)
    except BaseException:
        obs = [{'function': u.function, 'name': g, 'status': 'undecided', 'backend': None, 'time': 0.,
                'detail': traceback.format_exc()[-800:]} for g in (u.goals or ('contract',))]
    for o in obs:
        o['unit'] = u.name
        o['paths'] = u.paths
    with open(path + '.tmp', 'w') as f:
        json.dump({'obs': obs, 'wall': time.time() - t, 'queries': u.queries, 'paths': u.paths}, f, default=str)
    os.rename(path + '.tmp', path)


def run_units(prop, units, budget, jobs=None):
    jobs = jobs or min(8, os.cpu_count() or 2)
    deadline = time.time() + budget
    out = []
    with tempfile.TemporaryDirectory(dir=os.environ.get('PV_SCRATCH')) as d:
        todo, live = list(enumerate(units)), {}
        while todo or live:
            while todo and len(live) < jobs and time.time() < deadline:
                i, u = todo.pop(0)
                path = os.path.join(d, str(i))
                pid = os.fork()
                if pid == 0:
                    try:
                        sys.stdout.flush()
                        _one(u, path, deadline)
                    finally:
                        os._exit(0)
                live[pid] = (i, u, path, min(deadline, time.time() + u.limit) + 20)
            for pid, (i, u, path, end) in list(live.items()):
                p, _ = os.waitpid(pid, os.WNOHANG)
                if p or time.time() > end:
                    if not p:
                        os.kill(pid, 9)
                        os.waitpid(pid, 0)
                    del live[pid]
                    try:
                        out += [(i, o) for o in json.load(open(path))['obs']]
                    except Exception:
                        out += [(i, {'function': u.function, 'name': g, 'status': 'undecided', 'backend': None, 'time': 0.,
                                     'unit': u.name, 'detail': 'out of time or memory'}) for g in (u.goals or ('contract',))]
            if todo and time.time() >= deadline:
                for i, u in todo:
                    out += [(i, {'function': u.function, 'name': g, 'status': 'undecided', 'backend': None, 'time': 0.,
                                 'unit': u.name, 'detail': 'out of time'}) for g in (u.goals or ('contract',))]
                todo = []
            time.sleep(.02)
    out.sort(key=lambda x: x[0])
    return [o for _, o in out]


if __name__ == '__main__':
    # pv.obl PROP [unit-name-prefix]: development helper
    import importlib
    mod = importlib.import_module('pv.contracts.' + sys.argv[1].lower())
    us = [u for u in mod.units() if len(sys.argv) < 3 or u.name.startswith(sys.argv[2])]
    t = time.time()
    res = run_units(sys.argv[1], us, 900)
    seen = set()
    for o in res:
        if o['status'] != 'proved' and (o['unit'], o['detail']) in seen:
            o['detail'] = 'as above'
        seen.add((o['unit'], o['detail']))
        print(f"{o['status']:9} {o['unit']}: {o['name']} [{o['backend']}] paths={o.get('paths')} n={o.get('instances')}"
              + (f"\n      {str(o['detail'])[:1200]}" if o['status'] != 'proved' else ''))
    print(f"{sum(o['status'] == 'proved' for o in res)}/{len(res)} in {time.time() - t:.1f}s")
