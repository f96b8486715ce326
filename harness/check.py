#!/usr/bin/env python3
"""python3 harness/check.py <property id>: decide one property on /repo's working tree (VERIF_SEED, VERIF_TIER)."""
import importlib, os, sys, traceback
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import common

FAMILY = {'C01': 'text_family', 'C02': 'text_family', 'C03': 'text_family', 'C04': 'text_family', 'C05': 'text_family',
          'C06': 'text_family', 'C07': 'session_family', 'C18': 'iter_family', 'C14': 'learn_family', 'C09': 'store_family',
          'C08': 'corpus_family', 'C10': 'pipe_family', 'C19': 'pipe_family', 'C11': 'kill_family', 'C13': 'kill_family', 'C12': 'vocab_family',
          'C15': 'codes_family', 'C16': 'codes_family', 'C20': 'codes_family', 'C17': 'cli_family'}


def main():
    prop = sys.argv[1]
    ck = common.Check(prop)
    try:
        describe = importlib.import_module(FAMILY[prop]).run(ck)
        return ck.finish(describe)
    except Exception:
        traceback.print_exc()
        print('check %s could not be completed' % prop)
        return 2
    finally:
        if not os.environ.get('VERIF_KEEP'):
            ck.cleanup()


if __name__ == '__main__':
    sys.exit(main())
