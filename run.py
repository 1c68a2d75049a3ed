#!/usr/bin/env python3
"""run.py PROPERTY [quick|thorough]: decides one property of /repo."""
import importlib, os, sys
sys.path[:0] = [os.path.dirname(os.path.abspath(__file__)), os.path.join(os.path.dirname(os.path.abspath(__file__)), 'lib')]

CHECKS = {
    'C12': 'time', 'C13': 'time', 'C14': 'time',
    'C07': 'timeline', 'C08': 'timeline', 'C09': 'timeline',
    'C01': 'files', 'C02': 'files',
    'C03': 'frame', 'C04': 'frame', 'C06': 'frame',
    'C05': 'values',
    'C10': 'tree', 'C11': 'search', 'C15': 'catalog', 'C16': 'bywordsc', 'C17': 'bywordsc', 'C18': 'header', 'C19': 'replacer', 'C20': 'gradient', 'C21': 'color', 'C22': 'equality', 'C23': 'views',
}

if __name__ == '__main__':
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    os.environ['VERIF_TIER'] = tier
    sys.exit(importlib.import_module('checks.' + CHECKS[prop]).run(prop, tier))
