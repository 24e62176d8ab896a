"""Random fork-join programs for specs/ForkJoin.tla and the harnesses that use harness/prog.hpp."""
import random

ALL = "FFFCCTUQSEOGRAXZLMY"


class Gen:
    def __init__(self, seed, ops=ALL, tasks=8, depth=3, workers=(2, 3), roots=1, width=4, throw=0.25):
        self.r = random.Random(seed)
        self.ops, self.max, self.maxdepth, self.width, self.throw = ops, tasks, depth, width, throw
        self.w = self.r.choice(workers)
        self.n = 0
        self.out = {}
        self.x = 1
        self.roots = roots

    def has(self, c):
        return c in self.ops

    def task(self, depth):
        """returns the index of a new task"""
        me = self.n
        self.n += 1
        r, s = self.r, ""
        o = lambda c: r.random() < 0.25 and self.has(c)
        nch = 0       # result slots used
        nal = 0       # live allocations
        opened = False  # some fork since the last join (children may be running)
        dirty = False   # a join is needed
        canthrow = False
        if o("L"):
            s += "L"
        elif o("M"):
            s += "M"
        k = r.randint(0 if depth else 2, self.width) if depth < self.maxdepth else 0
        for _ in range(k):
            if o("R"):
                s += "R%d" % r.randint(1, self.w)
            if not opened and self.has("A") and r.random() < 0.3:
                if 0 < nal < 9 and r.random() < 0.4:
                    s += "a"
                    nal -= 1
                elif nal < 3:
                    if self.has("H") and r.random() < 0.3:
                        s += "HA%d" % r.choice([3, 40, 400])
                        nal = 9  # whether it is there is not known: do not release explicitly any more
                    elif r.random() < 0.1 and self.has("H"):
                        s += "B%d" % r.randint(0, 4)
                    elif r.random() < 0.2 and self.has("X"):
                        s += "W%dA%d" % (r.randint(0, 2), r.choice([3, 5, 40]))
                    else:
                        s += "A%d" % r.choice([0, 1, 3, 5, 40])
                        nal += 1
            if self.n >= self.max or nch >= 7:
                break
            c = r.choice([x for x in self.ops if x in "FTCUQSEOG"])
            if c in "OG" and opened:
                c = "S" if c == "O" else "E"
                if not self.has(c):
                    c = "F"
            if c == "G" and dirty and not opened:
                c = "C"
            if c == "O" and dirty:
                c = "F"
            ch = self.task(depth + 1)
            if self.has("H") and r.random() < 0.25:
                s += "H"
            s += c + str(ch)
            nch += 1
            if c in "FTSO":
                opened = True
            if c in "FTSOCE":
                dirty = True
            if opened and self.has("Z") and r.random() < 0.1:
                s += "Z%d" % self.newx()
                dirty = True
            if r.random() < 0.2 and self.has("Y"):
                s += "Y"
            if dirty and r.random() < 0.3:
                s += r.choice("JJK") if self.has("X") else "J"
                opened = dirty = False
        if dirty:
            s += r.choice("JJK") if self.has("X") else "J"
        if o("R"):
            s += "R%d" % r.randint(1, self.w)
        if depth and self.has("X") and r.random() < self.throw:
            s += "X%d" % self.newx()
        elif depth == 0 and self.has("X") and r.random() < 0.1:
            s += "X%d" % self.newx()
        self.out[me] = s
        return me

    def newx(self):
        self.x += 1
        return self.x - 1

    def prog(self):
        rs = []
        for _ in range(self.roots):
            rs.append("%d@%d" % (self.task(0), self.r.randint(1, self.w)))
        return "%d/%s/%s" % (self.w, "+".join(rs), ",".join(self.out[i] for i in range(self.n)))


def programs(seed, n, **kw):
    out, i = [], 0
    while len(out) < n:
        p = Gen(seed * 100003 + i, **kw).prog()
        i += 1
        if p not in out and p.count(",") >= 2:
            out.append(p)
    return out


if __name__ == "__main__":
    import sys
    for p in programs(int(sys.argv[1]), 12):
        print(p)
