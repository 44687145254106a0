#!/usr/bin/env python3-vt
"""check.py <PROPERTY-ID> [--tier quick|thorough]

Decides one property by static analysis of /repo's current source.
"""
import argparse
import importlib
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, 'analyzer'))
sys.path.insert(0, os.path.join(HERE, 'checks'))
sys.dont_write_bytecode = True
import threading
threading.stack_size(512 * 1024 * 1024)
sys.setrecursionlimit(200000)


def main():
  ap = argparse.ArgumentParser()
  ap.add_argument('pid')
  ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
  a = ap.parse_args()
  rc = [4]

  def go():
    try:
      mod = importlib.import_module(a.pid.lower())
      rc[0] = mod.run(a.tier)
    except SystemExit as e:
      rc[0] = e.code
    except BaseException as e:
      import traceback
      traceback.print_exc()
      rc[0] = 4
      import report
      rep = getattr(report.Report, 'last', None)
      if rep is not None and isinstance(e, Exception):
        # what follows was not analysed: say so, and report what was decided
        rep.undecided('analysis', 'rest of the check', f'{type(e).__name__}: {e}')
        rc[0] = rep.finish(1)

  t = threading.Thread(target=go)
  t.start()
  t.join()
  sys.stdout.flush()
  os._exit(rc[0])


if __name__ == '__main__':
  main()
