from common import *
import itertools

AVLM, CD, UF, KD, RT = "mmcore.ds.tree.avl", "mmcore.ds.cdll", "mmcore.ds.union_find", "mmcore.ds.bkdtree", "mmcore.ds.tree.rtree"
SL = "mmcore.numeric.algorithms.sweep_line."
BOUNDS = ("AVL tree: up to 4 insertions and 2 deletions of arbitrary keys; linked list: every sequence of 3 operations after up to 3 elements with arbitrary "
          "values and positions; union-find: 5 elements, 4 unions, 3 tuples of 2 arbitrary numbers; k-d tree: 2 arbitrary points in the plane or 4 on a line with an arbitrary query, up to 6 points with one or two arbitrary or a fixed query, "
          "inserted or built, up to five deletions, every k; R*-tree: up to 7 boxes, up to 2 of them and the query arbitrary; skip list, sorted "
          "sequence and priority queue: up to 4 arbitrary keys, deletions, every outcome of the random level generator up to height 3")
OUTSIDE = "larger collections, keys that are not totally ordered (NaN), printing, the time the operations take"


# --------------------------------------------------------------------------------------------------------- AVL

def same(a, b):
    return bool(a == b)


class Model:
    """association list with (possibly symbolic) keys"""

    def __init__(self):
        self.d = []

    def find(self, k):
        for i, (x, _) in enumerate(self.d):
            if same(x, k):
                return i

    def get(self, k):
        i = self.find(k)
        return None if i is None else self.d[i][1]

    def put(self, k, v, replace=True):
        i = self.find(k)
        if i is None:
            self.d.append((k, v))
        elif replace:
            self.d[i] = (k, v)

    def drop(self, k):
        i = self.find(k)
        if i is not None:
            self.d.pop(i)

    def sorted(self):
        r = []
        for k, v in self.d:
            j = 0
            while j < len(r) and bool(r[j][0] < k):
                j += 1
            r.insert(j, (k, v))
        return r


def avl_shape(c, t):
    if t.node is None:
        c.check("height of an empty tree", t.height == -1)
        return 0
    a, b = avl_shape(c, t.node.left), avl_shape(c, t.node.right)
    c.check("balanced", abs(a - b) <= 1, f"{a} {b}")
    c.check("height", t.height == max(a, b))
    c.check("balance factor", t.balance == a - b)
    return 1 + max(a, b)


def avl_same(c, t, M):
    got = t.inorder_traverse()
    want = M.sorted()
    c.check("number of keys", len(got) == len(want), f"{len(got)} {len(want)}")
    for g, (k, v) in zip(got, want):
        c.eq("key in order", g.key, k)
        c.check("data of the key", g.data == v, f"{g.data} {v}")
    avl_shape(c, t)


def avl(c, n, dele, how):
    t = c.mod(AVLM).AVL()
    M = Model()
    ks = [c.real(f"k{i}", -8, 8) for i in range(n)]
    if how == "distinct":
        for a, b in itertools.combinations(ks, 2):
            c.assume(a != b)
    ds = [c.real(f"d{i}", -8, 8) for i in range(dele)]
    c.feasible()
    for i, k in enumerate(ks):
        if how == "item":
            t[k] = i
        else:
            t.insert(k, i)
        M.put(k, i, how == "item")
        if how != "late":
            avl_same(c, t, M)
    if how == "late":
        avl_same(c, t, M)
    for d in ds:
        if how == "item":
            del t[d]
        else:
            t.delete(d)
        M.drop(d)
        avl_same(c, t, M)
    q = c.real("q", -8, 8)
    f = t.search(q)
    w = M.get(q)
    c.check("search", (f.data if f is not None else None) == w, f"{f} {w}")


def avl_append(c, n):
    t = c.mod(AVLM).AVL()
    v = [c.real(f"v{i}") for i in range(n)]
    c.feasible()
    for x in v:
        t.append(x)
    got = t.inorder_traverse()
    c.check("all kept", len(got) == n, f"{len(got)} {n}")
    for i in range(n):
        c.eq("in order", got[i].data, v[i])
    avl_shape(c, t)


# --------------------------------------------------------------------------------------------------------- linked list

def ring(c, L, model):
    """the ring holds exactly the model's values in order, forwards and backwards"""
    c.check("len", len(L) == len(model), f"{len(L)} {len(model)}")
    c.check("size", L.size() == len(model))
    got = list(itertools.islice(iter(L), len(model) + 3))
    c.check("iteration length", len(got) == len(model), f"{len(got)} {len(model)}")
    for i, (g, m) in enumerate(zip(got, model)):
        c.eq(f"value {i}", g, m)
    nodes = list(itertools.islice(L.iter_nodes(), len(model) + 3))
    c.check("nodes", len(nodes) == len(model))
    for i, x in enumerate(nodes):
        c.check("next", x.next is nodes[(i + 1) % len(nodes)])
        c.check("previous", x.previous is nodes[i - 1])
        c.eq(f"get {i}", L.get(i), model[i])
        c.check("get_node", L.get_node(i) is x)
        c.eq(f"item {i}", L[i], model[i])
    if model:
        c.eq("last", L[-1], model[-1])


def cdll(c, n, ops):
    m = c.mod(CD)
    model = [c.real(f"v{i}", -4, 4) for i in range(n)]
    L = m.CDLL(list(model))
    c.feasible()
    ring(c, L, model)
    for j, op in enumerate(ops):
        x = c.real(f"x{j}", -4, 4)
        if op == "append":
            L.append(x)
            model.append(x)
        elif op == "append node":
            L.append_node(m.Node(x))
            model.append(x)
        elif op == "insert":
            i = c.pick(f"i{j}", len(model) + 1)
            L.insert(x, i)
            model.insert(i, x)
        elif op == "bad insert":
            for i in (-1, len(model) + 1):
                c.check("insert outside refused", c.call(L.insert, x, i)[0] == "err")
        elif op in ("delete", "remove_by_index"):
            if not model:
                c.check("deleting from an empty list refused", c.call(L.remove_by_index, 0)[0] == "err")
                continue
            i = c.pick(f"i{j}", len(model))
            if op == "delete":
                del L[i]
            else:
                L.remove_by_index(i)
            model.pop(i)
        elif op == "remove":
            w = next((i for i, y in enumerate(model) if same(y, x)), None)
            st, ex = c.call(L.remove, x)
            if w is None:
                c.check("removing a missing value refused", st == "err" and isinstance(ex, ValueError), str(ex))
            else:
                c.check("removed", st == "ok", str(ex))
                model.pop(w)
        elif op == "index":
            w = next((i for i, y in enumerate(model) if same(y, x)), None)
            c.check("index", L.index(x) == w)
            c.check("contains", (x in L) == (w is not None))
        elif op == "set":
            if not model:
                continue
            i = c.pick(f"i{j}", len(model))
            L[i] = x
            model[i] = x
        elif op == "replace":
            if not model:
                continue
            i = c.pick(f"i{j}", len(model))
            L.replace_node(i, m.Node(x))
            model[i] = x
        elif op == "bad get":
            for f, i in ((L.get, len(model)), (L.get, -len(model) - 1), (L.get_node, len(model)), (L.get_node, -1), (L.remove_by_index, len(model))):
                c.check("outside refused", c.call(f, i)[0] == "err")
        ring(c, L, model)


# --------------------------------------------------------------------------------------------------------- union-find

def unions(c, n, k):
    u = c.mod(UF).UnionFind(n)
    sets = [{i} for i in range(n)]
    c.feasible()
    for j in range(k):
        x, y = c.pick(f"x{j}", n), c.pick(f"y{j}", n)
        u.union(x, y)
        a, b = next(s for s in sets if x in s), next(s for s in sets if y in s)
        if a is not b:
            sets.remove(a)
            sets.remove(b)
            sets.append(a | b)
        r = [u.find(i) for i in range(n)]
        for p, q in itertools.combinations(range(n), 2):
            c.check("same set", (r[p] == r[q]) == any(p in s and q in s for s in sets))
        c.check("representative is a member", all(any(r[i] in s and i in s for s in sets) for i in range(n)))


def groups(c, shape):
    m = c.mod(UF)
    T, k = [], 0
    for s in shape:
        T.append(tuple(c.real(f"n{k + i}", 0, 9) for i in range(s)))
        k += s
    c.feasible()
    G = m.group_tuples(list(T))
    c.check("every tuple once", sum(len(g) for g in G) == len(T))
    where = []
    for t in T:
        w = [i for i, g in enumerate(G) if any(x is t for x in g)]
        c.check("in one group", len(w) == 1)
        where.append(w[0])
    comp = list(range(len(T)))
    for i, j in itertools.combinations(range(len(T)), 2):
        if any(same(a, b) for a in T[i] for b in T[j]):
            ci, cj = comp[i], comp[j]
            comp = [ci if x == cj else x for x in comp]
    for i, j in itertools.combinations(range(len(T)), 2):
        c.check("together exactly when connected", (where[i] == where[j]) == (comp[i] == comp[j]))


# --------------------------------------------------------------------------------------------------------- k-d tree

def d2(p, q):
    return sum_([(a - b) * (a - b) for a, b in zip(p, q)])


def kd_points(t):
    out = []

    def walk(n):
        if n is None:
            return 0
        out.append(n.point)
        k = 1 + walk(n.left) + walk(n.right)
        assert n.size == k, "size"
        return k
    walk(t.root)
    return out


def kd_same(c, t, model):
    got = kd_points(t)
    c.check("number of points", len(got) == len(model), f"{len(got)} {len(model)}")
    left = list(got)
    for p in model:
        i = next((i for i, g in enumerate(left) if g is p), None)
        if i is None:
            i = next((i for i, g in enumerate(left) if all(same(a, b) for a, b in zip(g, p))), None)
        c.check("point kept", i is not None)
        left.pop(i)


def kd(c, how, n, dim, dele, query, free=None, qfix=None):
    m = c.mod(KD)
    pts = []
    for i in range(n):
        if free is not None and i not in free:
            pts.append(tuple(c.num(x) for x in [(3, 1), (-2, 2), (0, -3), (1, 4), (-3, -1), (2, -2)][i][:dim]))
        else:
            pts.append(tuple(c.real(f"p{i}_{j}", -4, 4) for j in range(dim)))
    q = tuple(c.num(x) for x in qfix) if qfix else tuple(c.real(f"q{j}", -4, 4) for j in range(dim))
    c.feasible()
    model = list(pts)
    if how == "build":
        given = list(pts)
        t = m.BKDTree(given)
        c.check("the list given is left alone", all(a is b for a, b in zip(given, pts)))
    else:
        t = m.BKDTree()
        for p in pts:
            t.insert(p)
    kd_same(c, t, model)
    for i in dele:
        if i == "free":
            p = tuple(c.real(f"x{j}", -4, 4) for j in range(dim))
        else:
            p = pts[i]
        t.delete(p)
        w = next((k for k, g in enumerate(model) if all(same(a, b) for a, b in zip(g, p))), None)
        if w is not None:
            model.pop(w)
        kd_same(c, t, model)
    if query == "nearest":
        r = t.nearest_neighbor(q)
        if not model:
            c.check("nothing in an empty tree", r is None)
            return
        c.check("one of the points", any(r is p or all(same(a, b) for a, b in zip(r, p)) for p in model))
        for p in model:
            c.le("nearest", d2(r, q), d2(p, q), 1e-9)
    else:
        r = t.k_nearest_neighbors(q, query)
        c.check("count", len(r) == min(query, len(model)), f"{len(r)} of {len(model)}")
        rest = list(model)
        for p in r:
            i = next((i for i, g in enumerate(rest) if g is p), None)
            if i is None:
                i = next((i for i, g in enumerate(rest) if all(same(a, b) for a, b in zip(g, p))), None)
            c.check("different points of the tree", i is not None)
            rest.pop(i)
        for a, b in zip(r, r[1:]):
            c.le("sorted by distance", d2(a, q), d2(b, q), 1e-9)
        for p in rest:
            c.le("the others are farther", d2(r[-1], q), d2(p, q), 1e-9)


# --------------------------------------------------------------------------------------------------------- R*-tree

FIXED = [(0, 1), (4, 6), (-5, -3), (2, 3), (7, 9), (-8, -7), (10, 11)]


def rtree(c, n, free, mx, mn, kind):
    m = c.mod(RT)
    t = m.RStarTree(max_children=mx, min_children=mn)
    boxes, iv = [], []
    for i in range(n):
        if i in free:
            a, w = c.real(f"a{i}", -12, 12), c.real(f"w{i}", 0, 4)
            b = a + w
        else:
            a, b = [c.num(x) for x in FIXED[i]]
        iv.append((a, b))
        o, l = c.num(0), c.num(1)
        boxes.append({"rect x": lambda: m.Rectangle(a, o, b, l), "rect y": lambda: m.Rectangle(o, a, l, b), "box x": lambda: m.Box(a, o, o, b, l, l),
                      "box z": lambda: m.Box(o, o, a, l, l, b)}[kind]())
    q0 = c.real("q", -12, 12)
    q1 = q0 + c.real("qw", 0, 4)
    c.feasible()
    for b in boxes:
        t.insert(b)
    o, l = c.num(0), c.num(1)
    Q = {"rect x": lambda: m.Rectangle(q0, o, q1, l), "rect y": lambda: m.Rectangle(o, q0, l, q1), "box x": lambda: m.Box(q0, o, o, q1, l, l),
         "box z": lambda: m.Box(o, o, q0, l, l, q1)}[kind]()
    r = t.search(Q)
    for b, (x, y) in zip(boxes, iv):
        k = sum(1 for g in r if g is b)
        hit = bool(x <= q1) and bool(q0 <= y)
        c.check("found exactly when it meets the query", k == (1 if hit else 0), f"{k} {hit}")
    c.check("nothing else found", len(r) == sum(1 for g in r if any(g is b for b in boxes)))

    def walk(nd, depth):
        c.check("not too many children", len(nd.children) <= mx)
        if nd is not t.root:
            c.check("not too few children", len(nd.children) >= mn)
        if nd.is_leaf:
            return {depth}
        s = set()
        for ch in nd.children:
            s |= walk(ch, depth + 1)
        return s
    c.check("all leaves equally deep", len(walk(t.root, 0)) == 1)


def box_ops(c, cls):
    m = c.mod(RT)
    d = 2 if cls == "Rectangle" else 3

    def mk(nm):
        lo, hi = [c.real(f"{nm}l{i}", -4, 4) for i in range(d)], [c.real(f"{nm}h{i}", -4, 4) for i in range(d)]
        for x, y in zip(lo, hi):
            c.assume(x <= y)
        return getattr(m, cls)(*lo, *hi), lo, hi

    def ends(b):
        return ([b.minx, b.miny, b.maxx, b.maxy] if d == 2 else [b.minx, b.miny, b.minz, b.maxx, b.maxy, b.maxz])
    A, al, ah = mk("a")
    B, bl, bh = mk("b")
    what = c.pick("what", 3)
    c.feasible()
    if what == 0:
        r = bool(A.intersect(B))
        want = all(bool(al[i] <= bh[i]) and bool(bl[i] <= ah[i]) for i in range(d))
        c.check("intersect", r == want)
        return
    v, w = c.num(1), c.num(0)
    for i in range(d):
        v, w = v * (ah[i] - al[i]), w + (ah[i] - al[i])
    c.eq("area", A.area(), v)
    c.eq("perimeter", A.perimeter(), 2 * w)
    if what == 1:
        U = ends(A.union(B))
        c.eqv("operands unchanged", ends(A) + ends(B), al + ah + bl + bh)
    else:
        A.enlarge(B)
        U = ends(A)
        c.eqv("operand unchanged", ends(B), bl + bh)
    for i in range(d):
        c.check("lower", c.And(U[i] <= al[i], U[i] <= bl[i], c.Or(U[i] == al[i], U[i] == bl[i])))
        c.check("upper", c.And(U[d + i] >= ah[i], U[d + i] >= bh[i], c.Or(U[d + i] == ah[i], U[d + i] == bh[i])))


# --------------------------------------------------------------------------------------------------------- skip list, queue

def skip_model(c, S, M, seq):
    want = M.sorted()
    got = list(itertools.islice(S.iteritems(), len(want) + 3))
    c.check("number of keys", len(got) == len(want) and len(S) == len(want), f"{len(got)} {len(S)} {len(want)}")
    for (k, v), (k1, v1) in zip(got, want):
        c.eq("key in order", k, k1)
        c.check("value", v == v1)
    # every level is a sorted sublist, linked both ways
    for lv in range(len(S.head.succ)):
        a, n = S.head, 0
        while a is not S.tail and n <= len(want) + 2:
            b = a.succ[lv]
            c.check("linked both ways", b.prev[lv] is a)
            a, n = b, n + 1
        c.check("level ends", a is S.tail)
    if seq:
        c.check("empty", S.empty() == (not want))
        mn = S.min()
        c.check("min", (mn is None) == (not want))
        if want:
            c.eq("min key", mn.key, want[0][0])


def skiplist(c, cls, n, ops):
    m = c.mod(SL + ("skiplist" if cls == "SkipList" else "sortseq"))
    S = getattr(m, cls)()
    j = [0]

    class Levels:
        def __iter__(self):
            return self

        def __next__(self):
            j[0] += 1
            return c.pick(f"level{j[0]}", 3 if j[0] <= 3 else 1)
    S.distribution = Levels()
    M = Model()
    ks = [c.real(f"k{i}", -8, 8) for i in range(n)]
    c.feasible()
    seq = cls == "SortSeq"
    for i, k in enumerate(ks):
        if seq:
            nd = S.insert(k, i)
            c.check("inserted node", nd.data == i)
            c.eq("inserted key", nd.key, k)
        else:
            S[k] = i
        M.put(k, i)
    skip_model(c, S, M, seq)
    for o, op in enumerate(ops):
        q = c.real(f"q{o}", -8, 8)
        if op == "delete":
            if seq:
                S.delete(q)
            else:
                del S[q]
            M.drop(q)
        elif op == "get":
            c.check("value", S[q] == M.get(q))
        elif op == "lookup":
            nd = S.lookup(q)
            c.check("lookup", (nd.data if nd is not None else None) == M.get(q))
        elif op == "locate":
            nd = S.locate(q)
            w = next((kv for kv in M.sorted() if not bool(kv[0] < q)), None)
            c.check("locate", (nd is None) == (w is None), f"{nd} {w}")
            if w:
                c.eq("located key", nd.key, w[0])
        elif op == "delItem":
            if not M.d:
                continue
            k = M.d[c.pick(f"i{o}", len(M.d))][0]
            S.delItem(S.lookup(k))
            M.drop(k)
        elif op == "insertAt":
            s = M.sorted()
            # the neighbour below or above
            w = [kv for kv in s if not bool(kv[0] > q)][-1:] if c.pick(f"side{o}", 2) else [kv for kv in s if not bool(kv[0] < q)][:1]
            if not w:
                continue
            S.insertAt(S.lookup(w[0][0]), q, 50)
            M.put(q, 50)
        elif op == "again":
            if seq:
                S.insert(q, 60)
            else:
                S[q] = 60
            M.put(q, 60)
        elif op == "neighbours":
            s = M.sorted()
            for i, (k, v) in enumerate(s):
                nd = S.lookup(k)
                a, b = S.pred(nd), S.succ(nd)
                c.check("pred", (a.data if a is not None else None) == (s[i - 1][1] if i else None))
                c.check("succ", (b.data if b is not None else None) == (s[i + 1][1] if i + 1 < len(s) else None))
        skip_model(c, S, M, seq)


def pqueue(c, n, take):
    m = c.mod(SL + "priority_queue")
    Q = m.PriorityQueue()
    c.check("empty at first", Q.empty() and Q.size() == 0 and Q.min() is None)
    ks = [c.real(f"k{i}", -8, 8) for i in range(n)]
    c.feasible()
    left = []
    for i, k in enumerate(ks):
        Q.insert(k, i)
        left.append(i)
        if take[i]:
            w = Q.min()
            r = Q.delMin()
            c.check("min is what delMin takes", w is r)
            i0 = Q.inf(r)
            c.check("taken once", i0 in left)
            c.eq("priority", Q.prio(r), ks[i0])
            for x in left:
                c.check("least priority first", ks[i0] <= ks[x])
            left.remove(i0)
        c.check("size", Q.size() == len(left) and Q.empty() == (not left))
    last = None
    while left:
        r = Q.delMin()
        i0 = Q.inf(r)
        c.check("taken once", i0 in left)
        for x in left:
            c.check("least priority first", ks[i0] <= ks[x])
        left.remove(i0)
    c.check("empty at last", Q.empty())


def cases(tier):
    C = []

    def add(name, fn, *a, **k):
        k.setdefault("time_s", 100)
        C.append(Case(name, fn, a, **k))
    deep = tier == "thorough"
    for n in range(1, 5 if not deep else 6):
        for d in range(0, 3):
            if n + d > (5 if not deep else 6):
                continue
            if (n, d) in ((4, 1), (3, 2)) and not deep:
                add(f"avl {n} keys, {d} deletions, distinct", avl, n, d, "distinct", mods=(AVLM,), weight=n + d, paths=8000)
                continue
            for how in ("insert", "item"):
                add(f"avl {n} keys, {d} deletions, {how}", avl, n, d, how, mods=(AVLM,), weight=n + d, paths=8000)
    if deep:
        add("avl 5 keys", avl, 5, 0, "late", mods=(AVLM,), paths=8000, weight=6)
    if deep:
        add("avl 5 distinct keys, 1 deletion", avl, 5, 1, "distinct", mods=(AVLM,), paths=8000, weight=9, time_s=600)
    for n in (0, 1, 2, 4, 8):
        add(f"avl append {n}", avl_append, n, mods=(AVLM,))
    OPS = ("append", "append node", "insert", "delete", "remove_by_index", "remove", "index", "set", "replace", "bad insert", "bad get")
    MUT = ("append", "insert", "delete", "remove", "replace")
    for n in range(4):
        for op in OPS:
            add(f"list of {n}: {op}", cdll, n, (op,), mods=(CD,))
    for n in (0, 1, 2):
        for a in MUT + ("append node",):
            for b in MUT:
                add(f"list of {n}: {a}, {b}", cdll, n, (a, b), mods=(CD,))
                if deep or n == 1:
                    for d in MUT:
                        add(f"list of {n}: {a}, {b}, {d}", cdll, n, (a, b, d), mods=(CD,))
    for n, k in ((2, 2), (3, 2), (4, 2)) + (((4, 3),) if deep else ()):
        add(f"union-find {n} elements, {k} unions", unions, n, k, mods=(UF,), paths=6000)
    add("union-find 3 elements, 3 unions", unions, 3, 3, mods=(UF,), paths=6000)
    for s in ((1, 1), (2, 2), (1, 2, 1), (2, 2, 2), (1, 1, 1, 1)):
        add(f"groups {s}", groups, s, mods=(UF,), paths=6000)
    for how in ("build", "insert"):
        for n in (1, 2):
            add(f"kd {how} {n} plane nearest", kd, how, n, 2, (), "nearest", mods=(KD,), paths=6000, weight=3)
            for k in range(1, n + 2):
                add(f"kd {how} {n} plane {k} nearest", kd, how, n, 2, (), k, mods=(KD,), paths=6000, weight=3)
        for Q in ((0, 0), (1, -2), (-3, 3)):
            for k in ("nearest", 1, 2, 3, 4):
                add(f"kd {how} 3 plane {k} near {Q}", kd, how, 3, 2, (), k, (0,), Q, mods=(KD,), paths=6000, weight=3)
                add(f"kd {how} 6 plane {k} near {Q}", kd, how, 6, 2, (), k, (2,), Q, mods=(KD,), paths=6000, weight=3)
        for f in range(3):
            for k in ("nearest", 2):
                if (f, k) == (0, 2) or deep:
                    add(f"kd {how} 3 plane {k}, point {f} free", kd, how, 3, 2, (), k, (f,), mods=(KD,), paths=6000, weight=3)
        for n in (3, 4):
            add(f"kd {how} {n} line nearest", kd, how, n, 1, (), "nearest", mods=(KD,), paths=8000, weight=5)
            add(f"kd {how} {n} line delete one", kd, how, n, 1, (c_i := 0,), "nearest", mods=(KD,), paths=8000, weight=5)
        for d in range(3):
            add(f"kd {how} 3 plane delete {d}", kd, how, 3, 2, (d,), "nearest", (0, 1), mods=(KD,), paths=6000, weight=4)
            for Q in ((1, 1), (-3, 2)):
                add(f"kd {how} 6 plane delete {d} near {Q}", kd, how, 6, 2, (d,), "nearest", (1,), Q, mods=(KD,), paths=6000, weight=4)
        add(f"kd {how} 6 line delete two", kd, how, 6, 1, (0, 3), 2, (2,), mods=(KD,), paths=6000, weight=4)
        add(f"kd {how} 3 line delete any", kd, how, 3, 1, ("free",), 2, mods=(KD,), paths=6000, weight=4)
        add(f"kd {how} 2 plane delete any", kd, how, 2, 2, ("free",), "nearest", mods=(KD,), paths=6000, weight=4)
        add(f"kd {how} 5 plane delete all", kd, how, 5, 2, (0, 1, 2, 3, 4), "nearest", (2,), mods=(KD,), paths=6000, weight=4)
    for cls in ("Box", "Rectangle"):
        add(f"{cls} operations", box_ops, cls, mods=(RT,), paths=6000)
    for kind in ("rect x", "rect y", "box x", "box z"):
        add(f"rtree {kind} 2 boxes", rtree, 2, (0, 1), 4, 2, kind, mods=(RT,), paths=6000)
        add(f"rtree {kind} 5 boxes", rtree, 5, (4,), 4, 2, kind, mods=(RT,), paths=6000)
        add(f"rtree {kind} 6 boxes narrow", rtree, 6, (5,), 2, 1, kind, mods=(RT,), paths=6000)
        add(f"rtree {kind} 7 boxes narrow", rtree, 7, (6,), 2, 1, kind, mods=(RT,), paths=6000)
    add("rtree 3 free boxes", rtree, 3, (0, 1, 2), 2, 1, "rect x", mods=(RT,), paths=8000, weight=9)
    if deep:
        add("rtree 5 boxes, two free", rtree, 5, (1, 4), 2, 1, "rect x", mods=(RT,), paths=20000, weight=9, time_s=600)
        add("rtree 4 boxes, two free", rtree, 4, (1, 3), 2, 1, "rect x", mods=(RT,), paths=8000, weight=9)
    for cls in ("SkipList", "SortSeq"):
        M2 = (SL + "skiplist", SL + "sortseq")
        for n in (0, 1, 2, 3):
            for ops in (("delete",), ("again",), ("delete", "again")):
                if n == 3 and len(ops) > 1:
                    continue
                add(f"{cls} {n} keys {' '.join(ops)}", skiplist, cls, n, ops, mods=M2, paths=8000, weight=n)
        if cls == "SkipList":
            add("SkipList 3 keys get", skiplist, cls, 3, ("get",), mods=M2, paths=8000)
        else:
            for op in ("lookup", "locate", "delItem", "insertAt", "neighbours"):
                for n in (1, 2, 3) if op not in ("insertAt",) else (1, 2):
                    add(f"SortSeq {n} keys {op}", skiplist, cls, n, (op,), mods=M2, paths=8000, weight=n)
            add("SortSeq 2 keys delItem again", skiplist, cls, 2, ("delItem", "again"), mods=M2, paths=8000, weight=2)
    for n in (1, 2, 3, 4):
        for take in itertools.product((0, 1), repeat=n):
            add(f"priority queue {take}", pqueue, n, take, mods=(SL + "priority_queue",), paths=6000)
    return C
