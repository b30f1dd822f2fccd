"""The case protocol of the harnesses (see model.hpp) for Python."""
import json, os, sys, time, traceback


class Ctx:
    def __init__(self, argv=None):
        a = list(sys.argv[1:] if argv is None else argv)
        self.shard, self.nshards, self.only, self.out, self.thorough, self.part = 0, 1, -1, None, False, None
        while a:
            x = a.pop(0)
            if x == '--shard': self.shard, self.nshards = int(a.pop(0)), int(a.pop(0))
            elif x == '--only': self.only = int(a.pop(0))
            elif x == '--out': self.out = os.path.abspath(a.pop(0))
            elif x == '--thorough': self.thorough = True
            else: self.part = x
        self.idx, self.run, self.nontrivial, self.transitions = -1, 0, 0, 0
        self.states, self.fails, self.samples, self.counters, self.cur, self.desc = set(), [], [], {}, None, ''
        if self.out: self.cur = open(self.out + '.cur', 'w')

    def next(self):
        self.idx += 1
        if self.only >= 0: return self.idx == self.only
        if len(self.fails) >= 8: return False
        return self.idx % self.nshards == self.shard

    def begin(self, desc):
        self.desc = desc
        self.run += 1
        if self.cur:
            self.cur.seek(0)
            self.cur.write(json.dumps(dict(case=self.idx, desc=desc)) + '\n')
            self.cur.flush()
            self.cur.truncate(self.cur.tell())
        if len(self.samples) < 3 and self.run in (1, 57, 1009): self.samples.append(desc)

    def fail(self, what):
        if len(self.fails) < 16 and not (self.fails and self.fails[-1]['case'] == self.idx):
            self.fails.append(dict(case=self.idx, what='%s: %s' % (self.desc, what)))
        if self.only >= 0: print('FAIL case %d: %s: %s' % (self.idx, self.desc, what))

    def count(self, k, v=1): self.counters[k] = self.counters.get(k, 0) + v

    def finish(self):
        if not self.out:
            print('run=%d distinct=%d nontrivial=%d transitions=%d cases=%d %s fails=%d' % (self.run, len(self.states), self.nontrivial, self.transitions, self.idx + 1, self.counters, len(self.fails)))
            for f in self.fails: print('  case %d: %s' % (f['case'], f['what']))
            return 3 if self.fails else 0
        with open(self.out + '.tmp', 'w') as f:
            json.dump(dict(evaluations=self.run, distinct=len(self.states), nontrivial=self.nontrivial, transitions=self.transitions, total_cases=self.idx + 1,
                           samples=self.samples, failures=self.fails, counters=self.counters, known=[]), f)
        os.rename(self.out + '.tmp', self.out)
        return 0


def main(table):
    c = Ctx()
    table[c.part](c)
    sys.stdout.flush()
    return c.finish()
