#!/usr/bin/env python3
"""check.py <property>: decide one property by static analysis of /repo's current source."""
import os
import sys
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, 'lib'))
sys.setrecursionlimit(20000)
import report

NATIVE = {'C03', 'C04', 'C05', 'C06', 'C07', 'C08', 'C09', 'C11', 'C16', 'C19'}
PYTHON = {'C01', 'C02', 'C03', 'C06', 'C08', 'C09', 'C10', 'C12', 'C13', 'C14', 'C15', 'C16', 'C17', 'C18', 'C19', 'C20', 'C26'}


def main():
    prop = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if len(sys.argv) > 2:
        tier = sys.argv[2]
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    res = report.Result(prop)
    res.tier = tier
    if prop in NATIVE:
        import cmodel
        import cpass
        m = cmodel.Model(report.REPO)
        cmodel.decide(prop, m, getattr(cpass, prop.lower()), res)
    if prop in PYTHON:
        import pypass
        pypass.run_prop(prop, report.REPO, res)
    return report.finish(res, tier, 'other', seed)


if __name__ == '__main__':
    # the analysis of the Python layer takes numpy's geometry rules from the numpy the project uses
    VENV = '/opt/venv/bin/python'
    if len(sys.argv) > 1 and sys.argv[1] in PYTHON and os.path.exists(VENV) and not os.environ.get('VERIF_INNER'):
        os.environ['VERIF_INNER'] = '1'
        os.environ['PYTHONDONTWRITEBYTECODE'] = '1'
        os.execv(VENV, [VENV] + sys.argv)
    try:
        rc = main()
    except SystemExit:
        raise
    except BaseException:
        traceback.print_exc()
        rc = 3
    sys.exit(rc)
