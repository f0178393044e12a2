#!/usr/bin/env python3
"""Runs the check of a property, or replays a failing case:
    check.py P01 [--tier quick|thorough] [--seed N]
    check.py replay replays/<file>.json
"""
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('ORIENT_REPO', '/repo')
PYTHON = '/opt/venv/bin/python'

if __name__ == '__main__':
    if os.environ.get('ORIENT_CHECK_CHILD') != '1':
        env = dict(os.environ, ORIENT_CHECK_CHILD='1',
                   PYTHONPATH=REPO, PYTHONDONTWRITEBYTECODE='1',
                   PYTHONHASHSEED='0')
        os.execve(PYTHON, [PYTHON, os.path.abspath(__file__)] + sys.argv[1:],
                  env)
    sys.path.insert(0, HERE)
    import orient
    if not os.path.abspath(orient.__file__).startswith(
            os.path.abspath(REPO) + os.sep):
        sys.exit('orient is imported from %s' % orient.__file__)
    from vlib.runner import main
    sys.exit(main(sys.argv[1:]))
