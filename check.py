#!/opt/venv/bin/python
"""Entry point of every check: check.py C01 [--tier quick|thorough] [--replay FILE]."""
import argparse
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('property')
    ap.add_argument('--tier', choices=['quick', 'thorough'], default=os.environ.get('VERIF_TIER') or 'quick')
    ap.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED') or 1))
    ap.add_argument('--replay')
    ap.add_argument('--sub', action='append')
    a = ap.parse_args()
    # a deterministic interpreter: fixed hash seed, UTF-8 text files
    if os.environ.get('PYTHONHASHSEED') != '0' or os.environ.get('PYTHONUTF8') != '1':
        os.environ['PYTHONHASHSEED'] = '0'
        os.environ['PYTHONUTF8'] = '1'
        os.environ['PYTHONDONTWRITEBYTECODE'] = '1'
        os.execv(sys.executable, [sys.executable, '-B'] + sys.argv)
    sys.path.insert(0, HERE)
    from vlib import core
    limit = 780
    replay = os.path.abspath(a.replay) if a.replay else None
    sys.exit(core.main(a.property, a.tier, a.seed, replay=replay, limit=limit, only=a.sub))


if __name__ == '__main__':
    main()
