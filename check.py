#!/usr/bin/env python3
"""check.py <property> [--tier quick|thorough] [--seed N]"""
import importlib, os, sys, traceback
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), 'lib'))
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), 'checks'))
sys.dont_write_bytecode = True
import vlib

def main():
    prop = sys.argv[1]
    ck = vlib.Check(prop)
    try:
        importlib.import_module(prop).run(ck)
    except vlib.ModelError as e:
        print('%s: the machinery failed: %s' % (prop, e))
        sys.exit(2)
    except Exception:
        traceback.print_exc()
        sys.exit(2)
    ck.finish()

main()
