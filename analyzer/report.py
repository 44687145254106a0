"""Obligations, evidence, known findings, exit status."""
import json
import os
import sys
import time
import traceback

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class Report:

  def __init__(self, pid, rule, tier='quick'):
    self.pid = pid
    self.rule = rule
    self.tier = tier
    self.t0 = time.time()
    self.obl = []  # (status, kind, where, detail)
    self.counts = {}
    self.notes = []
    self.functions = set()
    self.files = set()
    Report.last = self

  def ok(self, kind, where, detail=''):
    self.obl.append(('ok', kind, where, detail))

  def viol(self, kind, where, detail):
    self.obl.append(('violation', kind, where, detail))

  def undecided(self, kind, where, why):
    self.obl.append(('undecided', kind, where, str(why)))

  def check(self, cond, kind, where, detail):
    if cond:
      self.ok(kind, where)
    else:
      self.viol(kind, where, detail)
    return cond

  def note(self, s):
    self.notes.append(s)

  def count(self, k, n=1):
    self.counts[k] = self.counts.get(k, 0) + n

  # ------------------------------------------------------------------ finish
  def known(self):
    p = os.path.join(HERE, 'known_findings.json')
    if not os.path.exists(p):
      return []
    with open(p) as f:
      return [k for k in json.load(f).get('known', [])
              if k['property'] == self.pid]

  def finish(self, min_ok=1):
    viol = [o for o in self.obl if o[0] == 'violation']
    und = [o for o in self.obl if o[0] == 'undecided']
    oks = [o for o in self.obl if o[0] == 'ok']
    known = self.known()
    used, fresh = [], []
    for o in viol:
      hit = None
      for k in known:
        if k['kind'] == o[1] and k['where'] == o[2] and k.get(
            'match', '') in o[3]:
          hit = k
      (used if hit else fresh).append((o, hit))
    for o, k in used:
      print(f'KNOWN-FINDING: property={self.pid} {o[1]} {o[2]}: {k["what"]}')
    kinds = {}
    for s, kd, w, d in self.obl:
      e = kinds.setdefault(kd, {'ok': 0, 'violation': 0, 'undecided': 0})
      e[s] += 1
    cov = {
        'explanation': self.rule,
        'obligations': len(self.obl),
        'discharged': len(oks),
        'violations': len(viol),
        'undecided': len(und),
        'by_rule': kinds,
        'functions_analysed': sorted(self.functions),
        'files_analysed': sorted(self.files),
        'undecided_list': [f'{k} {w}: {d[:300]}' for _, k, w, d in und[:60]],
        'known_findings_seen': [f'{o[1]} {o[2]}' for o, _ in used],
        'samples': [f'{k} @ {w}' for _, k, w, _ in oks[:40]],
        **self.counts,
    }
    ev = {
        'property': self.pid,
        'tier': self.tier,
        'seed': int(os.environ.get('VERIF_SEED', '1') or 1),
        'level': LEVEL.get(self.pid, 'other'),
        'coverage': cov,
        'wall_s': round(time.time() - self.t0, 2),
        'notes': '; '.join(self.notes) if self.notes else '',
    }
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    with open(os.path.join(HERE, 'evidence', f'{self.pid}.json'), 'w') as f:
      json.dump(ev, f, indent=1)
    print(f'{self.pid}: {len(oks)} obligations discharged, {len(viol)} '
          f'violated ({len(used)} known), {len(und)} undecided, '
          f'{ev["wall_s"]} s')
    for _, k, w, d in und[:10]:
      print(f'  undecided {k} {w}: {d[:200]}')
    if fresh:
      rp = os.path.join(HERE, 'evidence', f'{self.pid}.violations.json')
      with open(rp, 'w') as f:
        json.dump([{'rule': k, 'construct': w, 'detail': d}
                   for (_, k, w, d), _ in fresh], f, indent=1)
      for (_, k, w, d), _ in fresh[:20]:
        print(f'  violated {k} {w}: {d[:600]}')
      print(f'VIOLATION property={self.pid} replay={rp}')
      return 1
    if len(oks) + len(used) < min_ok:
      print(f'{self.pid}: only {len(oks)} obligations decided (need {min_ok})')
      return 3
    return 0


LEVEL = {}
