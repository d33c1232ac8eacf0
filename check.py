#!/usr/bin/env python3
"""check.py PROP [--tier quick|thorough] [--seed N] [--count N] [--jobs N] | check.py replay FILE"""
import argparse
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
if os.environ.get('PYTHONHASHSEED') != '0' or os.environ.get('PYTHONDONTWRITEBYTECODE') != '1':
    os.environ.update(PYTHONHASHSEED='0', PYTHONDONTWRITEBYTECODE='1')
    os.execv(sys.executable, [sys.executable] + sys.argv)
sys.path.insert(0, os.path.join(HERE, 'sim'))
import core  # noqa: E402

p = argparse.ArgumentParser()
p.add_argument('prop')
p.add_argument('file', nargs='?')
p.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
p.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED', '1')))
p.add_argument('--count', type=int)
p.add_argument('--jobs', type=int)
a = p.parse_args()
if a.prop == 'replay':
    sys.exit(core.replay(a.file))
sys.exit(core.check(a.prop, a.tier, a.seed, a.jobs, a.count))
