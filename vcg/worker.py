"""Verify one contract driver of one module: worker.py MODULE.json DRIVER OUT.json SECONDS [CONTRACTSET...]"""
import sys, os, json, re, time, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import engine
import crcspec
import user_contracts
from engine import Module, Engine, Unsupported, Budget


def main():
    mod, driver, out, secs = sys.argv[1:5]
    sets = sys.argv[5:]
    t0 = time.time()
    for attempt in range(2):
        e = Engine(Module(mod), contracts=user_contracts.build(sets), opts=dict(deadline=t0 + float(secs), **user_contracts.opts(sets)))
        crcspec.install(e)
        user_contracts.install(e, sets)
        err = None
        try:
            e.verify(driver)
        except (Unsupported, Budget) as ex:
            err = '%s: %s' % (type(ex).__name__, ex)
        except KeyError as ex:
            if driver not in e.m.fns:
                err = 'driver missing from the module'
            else:
                err = 'internal: ' + traceback.format_exc()[-1500:]
        except Exception as ex:
            err = 'internal: ' + traceback.format_exc()[-1500:]
            if 'cancel' in str(ex):    # a late solver timer (see Engine.check): nothing was decided
                continue
        break
    obs = []
    for o in e.obs.values():
        obs.append(dict(name=o.name, where=o.where, kind=o.kind, instances=o.instances, backends=o.backends, failed=len(o.failed),
                        reason=o.failed[0]['reason'] if o.failed else None, model=o.failed[0]['model'] if o.failed else None,
                        trace=o.failed[0]['trace'] if o.failed else None))
    def repo_fn(fn):
        for b in fn.blocks or []:
            for i in b:
                if i.get('loc'):
                    return not re.search(r'/drivers/(?:\w+\.(?:cpp|h)):|^/usr/|/stubs/', i['loc'])
        return False
    own = {fn.dem for fn in e.m.fns.values() if fn.dem in e.inlined and repo_fn(fn)}
    e.inlined = {k: v for k, v in e.inlined.items() if k in own}
    r = dict(driver=driver, error=err, obligations=obs, covers=sorted(e.covers), loops=e.loops_info, stats=e.stats,
             backends=e.backend_count, inlined=e.inlined, contracts=e.contract_used, assumptions=sorted(e.assumptions), wall=time.time() - t0)

    def write():
        with open(out + '.tmp', 'w') as f:
            json.dump(r, f, default=str)
        os.rename(out + '.tmp', out)
    write()
    # candidate inputs from countermodels
    r['replays'] = []
    e.opts['deadline'] = None
    t1 = time.time()
    for o in e.obs.values():
        for f in o.failed:
            if not f.get('ctx') or time.time() - t1 > 40 or len(r['replays']) > 12:
                continue
            try:
                for lines in e.replay_inputs(f['ctx']):
                    r['replays'].append(dict(obligation=o.name, lines=lines))
                    if time.time() - t1 > 40:
                        break
            except Exception as ex:
                r.setdefault('replay_errors', []).append(repr(ex))
    write()


main()
