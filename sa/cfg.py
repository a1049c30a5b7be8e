"""Control-flow graph services: RPO, dominators, post-dominators, natural loops, call graph."""


def rpo(entry):
    seen, out = set(), []
    st = [(entry, iter(entry.succ))]
    seen.add(entry)
    while st:
        b, it = st[-1]
        for s in it:
            if s not in seen:
                seen.add(s)
                st.append((s, iter(s.succ)))
                break
        else:
            out.append(b)
            st.pop()
    out.reverse()
    return out


class Loop:
    __slots__ = ('header', 'blocks', 'latches', 'parent', 'exits', 'depth')

    def __init__(self, h):
        self.header, self.blocks, self.latches = h, set(), []
        self.parent, self.exits, self.depth = None, [], 1


class Cfg:
    """dominators + loops of one function (unreachable blocks dropped)"""

    def __init__(self, fn):
        self.fn = fn
        self.order = rpo(fn.blocks[0])
        self.num = {b: i for i, b in enumerate(self.order)}
        self.idom = self._dom()
        self._build_tree()
        self.loops = self._loops()

    def preds(self, b):
        return [p for p in b.pred if p in self.num]

    def _dom(self):
        num, order = self.num, self.order
        idom = {order[0]: order[0]}
        ch = True
        while ch:
            ch = False
            for b in order[1:]:
                new = None
                for p in b.pred:
                    if p in idom:
                        if new is None:
                            new = p
                        else:
                            a, c = p, new
                            while a is not c:
                                while num[a] > num[c]:
                                    a = idom[a]
                                while num[c] > num[a]:
                                    c = idom[c]
                            new = a
                if idom.get(b) is not new:
                    idom[b] = new
                    ch = True
        return idom

    def _build_tree(self):
        kids = {b: [] for b in self.order}
        for b in self.order[1:]:
            kids[self.idom[b]].append(b)
        self.kids = kids
        self.din, self.dout = {}, {}
        t = 0
        st = [(self.order[0], 0)]
        self.din[self.order[0]] = 0
        while st:
            b, k = st[-1]
            if k < len(kids[b]):
                st[-1] = (b, k + 1)
                t += 1
                self.din[kids[b][k]] = t
                st.append((kids[b][k], 0))
            else:
                self.dout[b] = t
                st.pop()

    def dom(self, a, b):
        """a dominates b"""
        return self.din[a] <= self.din[b] and self.dout[b] <= self.dout[a]

    def idom_chain(self, b):
        while True:
            yield b
            d = self.idom[b]
            if d is b:
                return
            b = d

    def _loops(self):
        loops = {}
        for b in self.order:
            for s in b.succ:
                if s in self.num and self.dom(s, b):
                    l = loops.setdefault(s, Loop(s))
                    l.latches.append(b)
        for h, l in loops.items():
            l.blocks = {h}
            st = list(l.latches)
            while st:
                b = st.pop()
                if b not in l.blocks:
                    l.blocks.add(b)
                    st.extend(p for p in b.pred if p in self.num)
        ls = sorted(loops.values(), key=lambda l: len(l.blocks))
        for i, l in enumerate(ls):
            for m in ls[i + 1:]:
                if l.header in m.blocks and m is not l:
                    l.parent = m
                    break
            l.exits = [(b, s) for b in l.blocks for s in b.succ if s not in l.blocks]
        for l in ls:
            d, p = 1, l.parent
            while p:
                d += 1
                p = p.parent
            l.depth = d
        self.innermost = {}
        for l in ls:           # smallest first
            for b in l.blocks:
                self.innermost.setdefault(b, l)
        return ls

    def loop_of(self, b):
        return self.innermost.get(b)

    def loops_of(self, b):
        l = self.innermost.get(b)
        while l:
            yield l
            l = l.parent

    def irreducible(self):
        """retreating edges that are not back edges of natural loops"""
        out = []
        for b in self.order:
            for s in b.succ:
                if s in self.num and self.num[s] <= self.num[b] and not self.dom(s, b):
                    out.append((b, s))
        return out


def callees(fn):
    for i in fn.instrs():
        if i.op == 'call' and i.x[0][0] == 'g':
            yield i, i.x[0][1][1:]


def sccs(nodes, succ):
    """Tarjan (iterative); returns SCCs bottom-up (callees first)"""
    index, low, onst, st, out = {}, {}, set(), [], []
    for root in nodes:
        if root in index:
            continue
        work = [(root, iter(succ(root)))]
        index[root] = low[root] = len(index)
        st.append(root)
        onst.add(root)
        while work:
            v, it = work[-1]
            adv = False
            for w in it:
                if w not in index:
                    index[w] = low[w] = len(index)
                    st.append(w)
                    onst.add(w)
                    work.append((w, iter(succ(w))))
                    adv = True
                    break
                elif w in onst:
                    low[v] = min(low[v], index[w])
            if adv:
                continue
            work.pop()
            if work:
                u = work[-1][0]
                low[u] = min(low[u], low[v])
            if low[v] == index[v]:
                comp = []
                while True:
                    w = st.pop()
                    onst.discard(w)
                    comp.append(w)
                    if w == v:
                        break
                out.append(comp)
    return out
