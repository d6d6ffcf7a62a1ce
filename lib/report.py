"""Verdicts, known findings, replays and evidence."""
import hashlib, json, os, re, sys, time
from lib import build

T0 = time.time()
KNOWN = os.path.join(build.VERIF, 'known_findings.jsonl')


def seed():
    return int(os.environ.get('VERIF_SEED', '1') or 1)


def tier():
    t = os.environ.get('VERIF_TIER', 'quick')
    return t if t in ('quick', 'thorough') else 'quick'


class Check:
    """Collects what a check observed. A violation is identified by a key (a stable description of the failing
    site or input class); keys listed as known findings are reported as such."""

    def __init__(self, pid):
        self.pid = pid
        self.viol = {}      # key -> (summary, replay dict)
        self.count = 0
        self.nontrivial = set()
        self.events = {}
        self.samples = []
        self.inconclusive = 0
        self.assumptions = []
        self.known = []
        self.rule = ''
        self.minimum = 1
        self.replaying = None   # the 'replay' part of a replay file: only that case is run
        if os.path.exists(KNOWN):
            with open(KNOWN) as f:
                for line in f:
                    line = line.strip()
                    if line:
                        k = json.loads(line)
                        if k.get('property') == pid and k.get('status') == 'known':
                            self.known.append(k)

    def case(self, n=1, nontrivial=None):
        self.count += n
        if nontrivial is not None:
            if len(self.nontrivial) < 3000000:
                self.nontrivial.add(hash(nontrivial))

    def event(self, name, n=1):
        self.events[name] = self.events.get(name, 0) + n

    def sample(self, s):
        if len(self.samples) < 12:
            self.samples.append(s if isinstance(s, (dict, list)) else str(s)[:600])

    def violation(self, key, summary, replay):
        self.event('violations')
        # the smallest example of each
        if key not in self.viol or len(str(replay)) < len(str(self.viol[key][1])):
            self.viol[key] = (summary, replay)

    def finish(self):
        wall = time.time() - T0
        new, seen = [], []
        for key, (summary, rep) in sorted(self.viol.items()):
            for k in self.known:
                if k['key'] == key:
                    seen.append((k, summary))
                    break
            else:
                new.append((key, summary, rep))
        ev = {
            'property': self.pid, 'tier': tier(), 'seed': seed(), 'level': 'exploration',
            'coverage': {
                'evaluations': self.count, 'distinct_nontrivial': len(self.nontrivial), 'rule': self.rule,
                'samples': self.samples or ['none'], 'observed_events': dict(sorted(self.events.items())),
                'inconclusive_cases': self.inconclusive,
                'known_findings_observed': [k['key'] for k, _ in seen],
            },
            'assumptions': self.assumptions, 'wall_s': round(wall, 2), 'violations': len(new),
        }
        os.makedirs(os.path.join(build.VERIF, 'evidence'), exist_ok=True)
        with open(os.path.join(build.VERIF, 'evidence', self.pid + '.json'), 'w') as f:
            json.dump(ev, f, indent=1, default=str)
        for k, s in seen:
            print('KNOWN-FINDING: property=%s %s' % (self.pid, k['what']))
        if new:
            rd = os.path.join(build.VERIF, 'build', 'replays')
            os.makedirs(rd, exist_ok=True)
            for key, summary, rep in new[:40]:
                p = os.path.join(rd, '%s-%s.json' % (self.pid, hashlib.sha1(key.encode()).hexdigest()[:10]))
                with open(p, 'w') as f:
                    json.dump({'property': self.pid, 'key': key, 'summary': summary, 'seed': seed(), 'tier': tier(),
                               'replay': rep}, f, indent=1, default=str)
                print('  %s: %s' % (key, summary[:1500]))
                print('VIOLATION property=%s replay=%s' % (self.pid, os.path.relpath(p, build.VERIF)))
            if len(new) > 40:
                print('  ... and %d more distinct violations' % (len(new) - 40))
            sys.stdout.flush()
            return 1
        if self.count < self.minimum:
            print('inconclusive: only %d cases observed (at least %d expected)' % (self.count, self.minimum))
            return 2
        print('%s held on %d executions (%d distinct non-trivial), %d events, %.0f s%s' %
              (self.pid, self.count, len(self.nontrivial), sum(self.events.values()), wall,
               ', %d inconclusive' % self.inconclusive if self.inconclusive else ''))
        return 0
