"""P26: union-find growth and peeling on arbitrary graphs."""
import numpy as np
from hypothesis import strategies as st
from plaquette.decoders import unionfind_decoder as uf
from plaquette.decoders import unionfind_erasure as peel

from .harness import Prop, require

PROP = Prop(
    "P26",
    "random multigraphs with 1-12 vertices, parallel and boundary edges, connected or "
    "not; random erasures, syndromes, weights and settings, in histories of 1-4 runs of "
    "one decoder; non-trivial: a lit vertex and an edge; oracle: connected components "
    "recomputed from the returned edges after every step, distances by breadth-first "
    "search",
)


class Growing(uf.UnionFind):
    choose_growth_increment_enabled = True


class Split(uf.UnionFindNoWeights):
    split_edges = True


CLASSES = dict(plain=uf.UnionFindNoWeights, weighted=uf.UnionFind, growing=Growing,
               split=Split)


@st.composite
def graphs(draw, max_v=12, max_e=18):
    v = draw(st.integers(1, max_v))
    edges = []
    if draw(st.booleans()):  # connected
        edges = [[draw(st.integers(max(0, i - 3), i - 1)), i] for i in range(1, v)]
    for _ in range(draw(st.integers(0 if edges else 1, max_e - len(edges)))):
        k = min(v, draw(st.sampled_from([2, 2, 2, 1])))
        edges.append(draw(st.lists(st.integers(0, v - 1), min_size=k, max_size=k,
                                   unique=True)))
    return dict(v=v, edges=edges)


def long_paths(draw):
    """A path with one or two boundary edges and a few shortcuts."""
    v = draw(st.integers(2, 30))
    edges = [[i, i + 1] for i in range(v - 1)] + [[0]] + [[v - 1]] * draw(
        st.integers(0, 1))
    for _ in range(draw(st.integers(0, 3))):
        a = draw(st.integers(0, v - 2))
        edges.append([a, draw(st.integers(a + 1, v - 1))])
    return dict(v=v, edges=edges)


def any_graph():
    return st.one_of(graphs(), graphs(4, 7), st.composite(long_paths)())


class Parts:
    """Connected components; ``None`` is the boundary but joins nothing."""

    def __init__(self, v, edges):
        self.root = list(range(v))
        self.open = set()
        for e in edges:
            if len(e) == 1:
                self.open.add(e[0])
            else:
                self.root[self.find(e[0])] = self.find(e[1])

    def find(self, a):
        while self.root[a] != a:
            a = self.root[a]
        return a

    def stuck(self, syn):
        """Roots of the components that cannot explain their lit vertices."""
        odd = {}
        for a, s in enumerate(syn):
            f = self.find(a)
            odd[f] = odd.get(f, False) ^ bool(s)
        free = {self.find(a) for a in self.open}
        return {f for f, o in odd.items() if o and f not in free}


def tuples(g):
    return [tuple(e) for e in g["edges"]]


def syndromes(draw, g):
    """Mostly ones that some error has."""
    if draw(st.integers(0, 5)) == 0:
        return [draw(st.booleans()) for _ in range(g["v"])]
    out = [False] * g["v"]
    some = st.integers(0, max(0, len(g["edges"]) - 1))
    for j in draw(st.lists(some, max_size=7)) if g["edges"] else []:
        for a in g["edges"][j]:
            out[a] ^= True
    return out


@st.composite
def histories(draw):
    g = draw(any_graph())
    m = len(g["edges"])
    kind = draw(st.sampled_from(["plain", "weighted", "weighted", "growing", "split"]))
    runs = []
    for _ in range(draw(st.integers(1, 4))):
        r = dict(syn=syndromes(draw, g), erased=draw(st.lists(
            st.integers(0, m - 1), max_size=draw(st.sampled_from([0, 2, 8])),
            unique=True)) if m else [])
        if kind in ("weighted", "growing") and draw(st.booleans()):
            r["weights"] = draw(st.one_of(st.none(), st.lists(
                st.one_of(st.sampled_from([0.5, 1.0, 1.0, 2.0, 3.5]),
                          st.floats(0.3, 9)), min_size=m, max_size=m)))
        runs.append(r)
    return dict(graph=g, kind=kind, runs=runs, coefficient=draw(st.sampled_from(
        [None, None, None, 1.0, 2, 3.5])))


def create(case, weights):
    u = CLASSES[case["kind"]](case["graph"]["v"], tuples(case["graph"]))
    if case["coefficient"] is not None:
        u.normalization_coefficient = case["coefficient"]
        require(u.normalization_coefficient == case["coefficient"], "coefficient")
    if weights is not None:
        u.set_weights(np.array(weights))
    return u


def complete(u):
    return sorted(int(j) for j in u.graph.get_complete_edges())


def stepwise(u, edges, v, r, split):
    """Grow step by step; only clusters which cannot explain the syndrome grow."""
    u.graph.init(np.array(r["erased"], int), np.array(r["syn"]))
    done = complete(u)
    require(done == sorted(r["erased"]), "before growth the edges", done,
            "are complete instead of", r["erased"])
    steps = 0
    while True:
        bad = Parts(v, [edges[j] for j in done])
        stuck = bad.stuck(r["syn"])
        if not stuck:
            break
        u.step()
        steps += 1
        new = complete(u)
        require(set(done) <= set(new), "edges disappear:", done, new)
        for j in set(new) - set(done):
            # half edges reach further than the edges completed so far
            require(split or any(bad.find(a) in stuck for a in edges[j]), "step", steps,
                    "completes edge", edges[j], "although its ends", "are explained")
        done = new
        require(steps < 10**5, "no end")
    for _ in range(3):
        u.step()
    require(complete(u) == done, "growth goes on after all is explained:", done,
            "becomes", complete(u))
    return done


@PROP.part("growth", histories(), 350, shards=4, thorough=20)
def growth(case):
    g = case["graph"]
    edges, v = tuples(g), g["v"]
    weights = None
    u = create(case, None)
    lit = refused = 0
    for r in case["runs"]:
        if "weights" in r:
            weights = r["weights"]
            u.set_weights(None if weights is None else np.array(weights))
        possible = not Parts(v, edges).stuck(r["syn"])
        era, syn = np.array(r["erased"], int), np.array(r["syn"])
        try:
            got = sorted(int(j) for j in u.union_find(era, syn))
        except AssertionError:
            require(not possible, "refused:", r)
            refused += 1
            u = create(case, weights)
            continue
        require(possible, "the impossible is explained by", got)
        require(era.tolist() == r["erased"] and syn.tolist() == r["syn"],
                "the input was modified")
        require(set(r["erased"]) <= set(got), "erased edges", r["erased"],
                "are missing in", got)
        stuck = Parts(v, [edges[j] for j in got]).stuck(r["syn"])
        require(not stuck, "edges", got, "cannot explain", r["syn"])
        fresh = create(case, weights)
        again = sorted(int(j) for j in fresh.union_find(era, syn))
        require(again == got, "a new decoder grows", again, "instead of", got)
        slow = stepwise(create(case, weights), edges, v, r, case["kind"] == "split")
        require(slow == got, "step by step", slow, "grow instead of", got)
        if weights is not None:
            twice = create(case, [4 * w for w in weights])
            twice = sorted(int(j) for j in twice.union_find(era, syn))
            require(twice == got, "with the same weights in other units", twice,
                    "grow instead of", got)
        whole(case, weights, era, syn, got)
        lit += any(r["syn"])
    return dict(nt=lit > 0, labels=[case["kind"], f"weights {weights is not None}",
                                    f"refused {refused > 0}"])


def whole(case, weights, era, syn, grown):
    """Growth and peeling together."""
    g = case["graph"]
    edges = tuples(g)
    for skip in (True, False):
        d = uf.UnionFindDecoder(CLASSES[case["kind"]], peel.Graph(g["v"], edges),
                                skip_erasure_decoder=skip)
        if case["coefficient"] is not None:
            d.uf.normalization_coefficient = case["coefficient"]
        if weights is not None:
            d.set_weights(np.array(weights))
        out = d.decode(era, syn)
        if skip:
            require(sorted(int(j) for j in out) == grown, "growth is", out)
        else:
            explained(edges, g["v"], out, grown, syn)


def explained(edges, v, out, allowed, syn):
    require(len(out) == len(edges), "length of the correction", len(out))
    picked = [j for j, b in enumerate(out) if b]
    require(set(picked) <= set(allowed), "the correction", picked,
            "uses edges outside of", allowed)
    have = [False] * v
    for j in picked:
        for a in edges[j]:
            have[a] ^= True
    require(have == [bool(s) for s in syn], "the correction", picked, "has syndrome",
            have, "instead of", list(syn))
    # a forest: picking fewer edges is never enough
    root = list(range(v + 1))

    def find(a):
        while root[a] != a:
            a = root[a]
        return a

    for j in picked:
        a, b = (*edges[j], v)[:2]
        require(b == v or find(a) != find(b), "the correction", picked, "has a cycle")
        if b != v:
            root[find(a)] = find(b)


@st.composite
def selections(draw):
    g = draw(any_graph())
    m = len(g["edges"])
    runs = []
    for _ in range(draw(st.integers(1, 4))):
        sel = draw(st.lists(st.integers(0, m - 1), unique=True)) if m else []
        if draw(st.booleans()):
            sel = draw(st.permutations(range(m)))[: draw(st.integers(0, m))]
        runs.append([list(sel), [j for j in sel if draw(st.booleans())],
                     draw(st.sampled_from(["list", "array", "bits"]))])
    return dict(graph=g, runs=runs)


@PROP.part("peeling", selections(), 400, shards=3, thorough=20)
def peeling(case):
    g = case["graph"]
    edges, v = tuples(g), g["v"]
    d = peel.ErasureDecoder(peel.Graph(v, edges))
    nt = False
    for sel, error, kind in case["runs"]:
        syn = [False] * v
        for j in error:
            for a in edges[j]:
                syn[a] ^= True
        nt |= any(syn)
        given = syn.copy() if kind == "list" else np.array(
            syn, bool if kind == "array" else "u1")
        use = np.array(sel, int)
        out = d.decode(use, given)
        explained(edges, v, out, sel, syn)
        require([bool(s) for s in given] == syn and use.tolist() == sel,
                "the input was modified:", given)
        again = peel.ErasureDecoder(peel.Graph(v, edges)).decode(use, given)
        require([bool(b) for b in again] == [bool(b) for b in out],
                "a new decoder answers", again, "instead of", out)
    return dict(nt=nt, labels=[f"runs {len(case['runs'])}"])


@PROP.part("single", st.tuples(any_graph(), st.integers(0, 99), st.booleans()).map(list),
           300, shards=2, thorough=20)
def single(case):
    """One lit vertex grows evenly until the nearest boundary edge is reached."""
    g, a, ones = case
    edges, v = tuples(g), g["v"]
    a %= v
    u = uf.UnionFind(v, edges) if ones else uf.UnionFindNoWeights(v, edges)
    if ones and edges:
        u.set_weights(np.ones(len(edges)))
    dist, todo = {a: 0}, [a]
    for x in todo:
        for e in edges:
            if x in e:
                for y in e:
                    if y not in dist:
                        dist[y] = dist[x] + 1
                        todo.append(y)
    exits = [dist[e[0]] for e in edges if len(e) == 1 and e[0] in dist]
    if not exits:
        return False
    want = [j for j, e in enumerate(edges)
            if min(dist.get(x, 10**6) for x in e) <= min(exits)]
    syn = np.zeros(v, bool)
    syn[a] = True
    got = sorted(int(j) for j in u.union_find([], syn))
    require(got == want, "one lit vertex", a, "grows", got, "instead of", want)
    return dict(nt=min(exits) > 0, labels=[f"radius {min(min(exits), 5)}"])


@PROP.part("line", st.tuples(st.lists(st.integers(4, 40), min_size=3, max_size=12),
                             st.integers(0, 99), st.sampled_from(
                                 ["weighted", "whole"])).map(list), 200, shards=2)
def line(case):
    """On a path the lit vertex is joined with the nearer end, by weight."""
    quarters, a, how = case
    m = len(quarters)
    v = m - 1
    edges = [(0,), *((i, i + 1) for i in range(v - 1)), (v - 1,)]
    a %= v
    w = np.array(quarters) / 4
    left, right = w[: a + 1].sum() / w.min(), w[a + 1 :].sum() / w.min()
    # every edge takes a whole number of steps, a quarter of the least weight each
    if abs(left - right) <= 0.5 * m + 0.01:
        return False
    syn = np.zeros(v, bool)
    syn[a] = True
    near = list(range(a + 1)) if left < right else list(range(a + 1, m))
    if how == "whole":
        d = uf.UnionFindDecoder(uf.UnionFind, peel.Graph(v, edges))
        d.set_weights(w)
        got = [j for j, b in enumerate(d.decode([], syn)) if b]
        require(got == near, "vertex", a, "is corrected by", got, "instead of", near)
    else:
        u = uf.UnionFind(v, edges)
        u.set_weights(w)
        got = u.union_find([], syn)
        far = m - 1 if left < right else 0
        require(set(near) <= set(got) and far not in got, "vertex", a, "grows", got)
    return dict(labels=[how])


@PROP.part("arguments", st.tuples(graphs(5, 8), st.integers(0, 10**6)).map(list), 60)
def arguments(case):
    g, seed = case
    edges, m = tuples(g), len(g["edges"])
    u = uf.UnionFindNoWeights(g["v"], edges)
    w = uf.UnionFind(g["v"], edges)
    wrong = [lambda: setattr(u, "normalization_coefficient", -1 - seed % 5),
             lambda: setattr(u, "normalization_coefficient", "1"),
             lambda: peel.ErasureDecoder(peel.Graph(g["v"], edges)).set_weights(None)]
    if m:
        wrong += [lambda: u.set_weights(np.ones(m)),
                  lambda: w.set_weights(np.ones(m + 1 + seed % 3))]
    for i, f in enumerate(wrong):
        try:
            f()
        except (ValueError, TypeError, AssertionError):
            continue
        require(False, "accepted: argument", i)
    require(u.normalization_coefficient == 2, "the refused coefficient is kept")
    return True
