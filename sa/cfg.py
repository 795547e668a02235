"""CFG facts of one body: successors, RPO, dominators, natural loop forest."""


def succs(t):
    k = t[0]
    if k == "goto":
        return [t[1]]
    if k == "switch":
        r = [x[1] for x in t[2]]
        r.append(t[3])
        return r
    if k == "drop":
        return [t[2]]
    if k == "call":
        return [t[4]] if t[4] is not None else []
    if k == "assert":
        return [t[5]]
    if k == "yield":
        return [t[2]]
    return []


class Cfg:
    def __init__(self, body):
        n = len(body.blocks)
        self.succ = [list(dict.fromkeys(succs(b["t"]))) for b in body.blocks]
        order, seen = [], set()
        st = [(0, iter(self.succ[0]))]
        seen.add(0)
        while st:
            b, it = st[-1]
            for x in it:
                if x not in seen:
                    seen.add(x)
                    st.append((x, iter(self.succ[x])))
                    break
            else:
                order.append(b)
                st.pop()
        self.rpo = order[::-1]
        self.num = {b: i for i, b in enumerate(self.rpo)}
        self.pred = {b: [] for b in self.rpo}
        for b in self.rpo:
            for x in self.succ[b]:
                self.pred[x].append(b)
        # dominators
        idom = {0: 0}
        ch = True
        while ch:
            ch = False
            for b in self.rpo[1:]:
                ps = [p for p in self.pred[b] if p in idom]
                if not ps:
                    continue
                d = ps[0]
                for p in ps[1:]:
                    x, y = d, p
                    while x != y:
                        while self.num[x] > self.num[y]:
                            x = idom[x]
                        while self.num[y] > self.num[x]:
                            y = idom[y]
                    d = x
                if idom.get(b) != d:
                    idom[b] = d
                    ch = True
        self.idom = idom
        # loops: header -> set of blocks
        self.loops = {}
        self.irreducible = False
        for b in self.rpo:
            for s in self.succ[b]:
                if self.num[s] <= self.num[b]:
                    if self.dom(s, b):
                        L = self.loops.setdefault(s, {s})
                        st = [b]
                        while st:
                            x = st.pop()
                            if x in L:
                                continue
                            L.add(x)
                            st.extend(self.pred[x])
                    else:
                        self.irreducible = True

        # blocks from which every path diverges (panic, abort, unreachable)
        ok = {b for b in self.rpo if body.blocks[b]["t"][0] in ("return", "yield")}
        for L in self.loops.values():
            ok |= L
        work = list(ok)
        while work:
            x = work.pop()
            for p in self.pred[x]:
                if p not in ok:
                    ok.add(p)
                    work.append(p)
        self.doomed = {b for b in self.rpo if b not in ok}

    def dom(self, a, b):
        while True:
            if a == b:
                return True
            if b == 0:
                return False
            b = self.idom[b]
