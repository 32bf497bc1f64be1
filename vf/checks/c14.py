"""C14: graph conversions, connected component search, edge reductions."""
import numpy as np


def run(ctx):
    full = "SUBSET Node"
    g = [ctx.gen("Graph", dict(N=3, EdgeSeqs="AllSeqs(3)", Masks=full), inv=("Inv", "Emitted"), name="g3"),
         ctx.gen("Graph", dict(N=5, EdgeSeqs="RandomSeqs(60, 8)" if ctx.quick else "RandomSeqs(2000, 9)",
                               Masks="{Node} \\union RandomSubset(6, SUBSET Node)" if not ctx.quick else "{Node, Node \\ {1}, Node \\ {0, 3}, {2}, Node \\ {4}}"),
                 inv=("Inv", "Emitted"), name="g5"),
         ctx.gen("Graph", dict(N=2, EdgeSeqs="AllSeqs(3)", Masks=full), inv=("Inv", "Emitted"), name="g2")]
    if not ctx.quick:
        g.append(ctx.gen("Graph", dict(N=4, EdgeSeqs="AllSeqs(3)", Masks=full), inv=("Inv", "Emitted"), name="g4"))
    import numba as nb
    import scipy.sparse as sp
    from neutralocean.grid.graph import edges_to_csr, edges_to_graph, graph_binary_fcn, build_grid
    from neutralocean.grid import divergence
    from neutralocean.bfs import bfs_conncomp1
    from neutralocean.lib import aggsum

    @nb.njit
    def binf(x, y):
        return 3.0 * x - y

    cases = [c for r in g for c in r()]
    seen = set()
    nb_, ng = 0, 0
    for c in cases:
        n, a, b = c["n"], np.array(c["a"], dtype=int), np.array(c["b"], dtype=int)
        E = len(a)
        good = np.array(c["good"])
        indptr, indices = edges_to_csr((a, b), n)

        def bad(clause, got):
            ctx.fail(clause, dict(case=c, got=got))
        lists = [list(map(int, indices[indptr[i]:indptr[i + 1]])) for i in range(n)]
        if len(indptr) != n + 1 or indptr[0] != 0 or lists != c["nbr"]:
            bad("NeighbourLists", lists)
        q = bfs_conncomp1(np.asarray(indptr), np.asarray(indices), c["root"], good.copy())
        if list(map(int, q)) != c["queue"]:
            bad("ComponentSearch", list(map(int, q)))
        nb_ += 1
        key = (n, tuple(a), tuple(b))
        if key in seen:
            continue
        seen.add(key)
        ng += 1
        w, v = np.array(c["w"], dtype=float), np.array(c["v"], dtype=float)
        mat = np.array(c["mat"])
        if E:
            # N deduced from the labels
            ip2, ix2 = edges_to_csr((a, b))
            m = max(a.max(), b.max()) + 1
            if [list(map(int, ix2[ip2[i]:ip2[i + 1]])) for i in range(m)] != c["nbr"][:m] or len(ip2) != m + 1:
                bad("NeighbourListsDeducedN", [ip2.tolist(), ix2.tolist()])
            G = edges_to_graph((a, b), n, w)
            if not np.array_equal(G.toarray(), mat):
                bad("MatrixWeights", G.toarray())
            G2 = edges_to_graph((a, b))
            cnt = np.zeros((m, m))
            for x, y in zip(a, b):
                cnt[x, y] += 1
                cnt[y, x] += 1
            if not np.array_equal(G2.toarray(), cnt):
                bad("MatrixUnitWeights", G2.toarray())
            d = divergence(v, (a, b), w)
            if not np.array_equal(d, np.array(c["div"], dtype=float)[:m]):
                bad("Divergence", d)
            area = np.arange(2.0, m + 2)
            d = divergence(v, (a, b), w, area)
            if not np.allclose(d, np.array(c["div"], dtype=float)[:m] / area, rtol=1e-14):
                bad("DivergenceArea", d)
            # the areas say how many nodes there are, also when the last ones have no edge
            area = np.arange(2.0, n + 2)
            d = divergence(v, (a, b), w, area)
            if np.shape(d) != (n,) or not np.allclose(d, np.array(c["div"], dtype=float) / area, rtol=1e-14):
                bad("DivergenceIsolated", d)
            d = divergence(v * w, (a, b))
            if not np.array_equal(d, np.array(c["div"], dtype=float)[:m]):
                bad("DivergenceUnit", d)
        for lab, idx in (("agga", a), ("aggb", b)):
            x = aggsum(v, idx, n)
            if list(x) != c[lab]:
                bad("Aggregate", list(x))
            # negative labels are excluded
            drop = np.where(np.arange(E) % 2 == 1, -1 - idx, idx)
            x = aggsum(v, drop, n)
            ref = [sum(v[i] for i in range(E) if i % 2 == 0 and idx[i] == k) for k in range(n)]
            if list(x) != ref:
                bad("AggregateExclude", list(x))
        nodev = 7.0 ** np.arange(n)
        ev = graph_binary_fcn((a, b), nodev, binf)
        if not np.array_equal(ev, 3.0 * nodev[a] - nodev[b]):
            bad("EdgeFunction", ev)
        # simple graphs: build_grid from matrices, dense and sparse, one- or two-sided
        pairs = {frozenset((int(x), int(y))) for x, y in zip(a, b)}
        if E and len(pairs) == E:
            S = mat.astype(float)
            S[np.diag_indices(n)] /= 2
            lo, up = np.tril(S), np.triu(S)
            mixed = np.zeros((n, n))
            for i in range(E):
                mixed[a[i], b[i]] = w[i]
            for nm, M in (("sym", S), ("lower", lo), ("upper", up), ("mixed", mixed)):
                if nm != "sym" and np.array_equal((M != 0), (M != 0).T) and not np.array_equal(M, M.T):
                    continue
                for fmt, conv in (("dense", lambda x: x), ("csr", sp.csr_matrix), ("coo", sp.coo_matrix), ("csc", sp.csc_matrix)):
                    want = sorted((min(x, y), max(x, y), float(ww)) for x, y, ww in zip(a.tolist(), b.tolist(), w))
                    for form in ("matrix", "dict"):
                        try:
                            gr = build_grid(conv(M)) if form == "matrix" else build_grid(dict(dist=conv(M), distperp=conv(M * 10)))
                            A, B = (np.asarray(x) for x in gr["edges"])
                            ds, dp = np.asarray(gr["dist"], float), np.asarray(gr["distperp"], float)
                            if form == "matrix":
                                ok = sorted((min(x, y), max(x, y)) for x, y in zip(A.tolist(), B.tolist())) == [x[:2] for x in want] \
                                    and np.array_equal(ds, np.ones(E)) and np.array_equal(dp, np.ones(E))
                            else:
                                ok = sorted((min(x, y), max(x, y), z) for x, y, z in zip(A.tolist(), B.tolist(), ds.tolist())) == want \
                                    and np.array_equal(dp, ds * 10)
                            if not ok:
                                bad(f"BuildGrid:{nm}:{fmt}:{form}", [A, B, ds, dp])
                        except Exception as e:
                            bad(f"BuildGrid:{nm}:{fmt}:{form}", repr(e))
    ctx.validated = nb_
    ctx.sample(cases[len(cases) // 2])
    ctx.note("searches_replayed", nb_)
    ctx.note("distinct_edge_lists", ng)
