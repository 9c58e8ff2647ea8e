#!/usr/bin/env python3
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import threading
from sa.core import check
def main():
    args = [a for a in sys.argv[1:] if not a.startswith('--')]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--thorough' in sys.argv: tier = 'thorough'
    rc[0] = check(args[0], tier if tier in ('quick', 'thorough') else 'quick', '--no-extract' in sys.argv)
rc = [3]
threading.stack_size(512 * 1024 * 1024)
t = threading.Thread(target=main); t.start(); t.join()
sys.stdout.flush(); os._exit(rc[0])
