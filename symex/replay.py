"""Runs harnesses on concrete inputs against the real code.
stdin: JSON list of {id, module, fn, params, values}; stdout: JSON results."""
import importlib
import json
import os
import shutil
import sys
import tempfile
import traceback
import warnings

warnings.simplefilter('ignore')
HERE = os.path.dirname(os.path.abspath(__file__))


def run_one(j, tmp):
    from api_conc import CX, AssumptionFailed
    mod = importlib.import_module('harness.' + j['module'])
    fn = getattr(mod, j['fn'])
    cx = CX(j['params'], j['values'], tmp)
    try:
        fn(cx, j['params'])
    except AssumptionFailed:
        return dict(status='assume', failed=cx.failed)
    except Exception as e:
        where = ''
        for f in traceback.extract_tb(e.__traceback__):
            if '/gerber/' in f.filename:
                where = '%s:%s' % (f.filename.split('/gerber/')[-1], f.name)
        return dict(status='exception', failed=cx.failed + ['unexpected-exception'],
                    detail='%s: %s @%s' % (type(e).__name__, e, where))
    return dict(status='fail' if cx.failed else 'ok', failed=cx.failed,
                checked=cx.checked, detail=getattr(cx, 'detail', ''))


def main():
    repo = os.environ.get('SX_REPO', '/repo')
    sys.dont_write_bytecode = True
    sys.path.insert(0, os.path.dirname(HERE))
    sys.path.insert(0, repo)
    sys.path.insert(0, HERE)
    try:
        import stubs_conc          # noqa: recording stand-ins (cairo)
    except ImportError:
        pass
    jobs = json.load(sys.stdin)
    tmp = tempfile.mkdtemp(prefix='sxreplay')
    out = []
    real = sys.stdout
    sys.stdout = open(os.devnull, 'w')
    cwd = os.getcwd()
    os.chdir(tmp)
    try:
        for j in jobs:
            d = tempfile.mkdtemp(dir=tmp)
            try:
                r = run_one(j, d)
            except BaseException as e:      # noqa
                r = dict(status='error', failed=[], detail=repr(e))
            shutil.rmtree(d, ignore_errors=True)
            r['id'] = j['id']
            out.append(r)
    finally:
        os.chdir(cwd)
        shutil.rmtree(tmp, ignore_errors=True)
    sys.stdout = real
    json.dump(out, sys.stdout)


if __name__ == '__main__':
    main()
