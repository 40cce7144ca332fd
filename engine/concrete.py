"""Worker: runs harnesses against the real legume of /repo with ordinary floats."""
import json
import os
import sys
import traceback
import warnings


def main():
    out = os.fdopen(os.dup(1), 'w')
    os.dup2(2, 1)
    repo = os.environ.get('VERIF_REPO', '/repo')
    here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    sys.path[:] = [p for p in sys.path if os.path.abspath(p or '.') != os.path.join(here, 'engine')]
    sys.path.insert(0, here)
    sys.path.insert(0, repo)
    os.environ.setdefault('MPLBACKEND', 'Agg')
    warnings.filterwarnings('ignore')
    import numpy as np
    import importlib
    import legume
    from engine.ctx import ConcreteCtx, AssumeFail
    np.seterr(all='ignore')
    null = open(os.devnull, 'w')
    for line in sys.stdin:
        req = json.loads(line)
        mod = importlib.import_module('props.' + req['prop'])
        case = [c for c in mod.CASES if c['name'] == req['case']][0]
        ctx = ConcreteCtx(legume, dict(req['inputs']), dict(req['choices']))
        rep = {'exception': None, 'assume': False}
        so = sys.stdout
        sys.stdout = null
        try:
            case['fn'](ctx, **case.get('args', {}))
        except AssumeFail:
            rep['assume'] = True
        except BaseException as e:
            rep['exception'] = '%s: %s' % (type(e).__name__, e)
            rep['trace'] = traceback.format_exc()[-1500:]
        finally:
            sys.stdout = so
            ctx.p.restore()
            legume.set_backend('numpy')
        rep['failures'] = ctx.failures
        rep['checks'] = ctx.checks
        rep['obs'] = [[l, [[float(z.real), float(z.imag)] for z in a]] for l, a in ctx.obs] if req.get('obs') else []
        out.write(json.dumps(rep) + '\n')
        out.flush()


if __name__ == '__main__':
    main()
