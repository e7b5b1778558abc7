"""behaviour-preserving edits ("quiet") and breaking edits ("catch") used to measure the checks; see bank.py"""
BANK = []


def quiet(note, *edits):
    BANK.append(("ALL", "quiet", list(edits), note))


def catch(pid, note, *edits):
    BANK.append((pid, "catch", list(edits), note))


def stay(pid, note, *edits):
    BANK.append((pid, "quiet", list(edits), note))


R = "_src/"
# ------------------------------------------------------------------ behaviour preserving
quiet("rep/reduced_rep rewritten",
      (R + "reduced_rep.py", '''        X = self.rep.continuous_generators()
        if X.shape[0] == 0 or self.mul == 0:
            return np.empty((X.shape[0], self.dim, self.dim))
        return np.stack([direct_sum(*[x for _ in range(self.mul)]) for x in X], axis=0)
''', '''        return self._repeat(self.rep.continuous_generators())

    def _repeat(self, gens: np.ndarray) -> np.ndarray:
        copies = self.mul
        if not (len(gens) > 0 and copies > 0):
            size = copies * gens.shape[-1]
            return np.zeros((gens.shape[0], size, size))
        blocks = []
        for g in gens:
            blocks.append(direct_sum(*([g] * copies)))
        return np.stack(blocks)
'''),
      (R + "reduced_rep.py", '''        H = self.rep.discrete_generators()
        if H.shape[0] == 0 or self.mul == 0:
            return np.empty((H.shape[0], self.dim, self.dim))
        return np.stack([direct_sum(*[x for _ in range(self.mul)]) for x in H], axis=0)
''', '''        return self._repeat(self.rep.discrete_generators())
'''),
      (R + "reduced_rep.py", '''        Xs = []
        for i in range(self.lie_dim):
            X = direct_sum(*[mul_ir.continuous_generators()[i] for mul_ir in self.irreps])
            if self.Q is not None:
                X = self.Q @ X @ np.linalg.inv(self.Q)
            Xs += [X]
        return np.stack(Xs)

    def discrete_generators''', '''        X = direct_sum(*[mul_ir.continuous_generators() for mul_ir in self.irreps])
        if self.Q is None:
            return X
        iQ = np.linalg.inv(self.Q)
        return np.einsum("ij,ajk,kl->ail", self.Q, X, iQ)

    def discrete_generators'''),
      (R + "rep.py", '''        for k, h in reversed(list(zip(discrete_params, self.discrete_generators()))):
            output = np.linalg.matrix_power(h, k) @ output
        return output''', '''        H = self.discrete_generators()
        n = min(len(discrete_params), len(H))
        for i in range(n - 1, -1, -1):
            step = np.linalg.matrix_power(H[i], discrete_params[i])
            output = step @ output
        return output'''),
      (R + "rep.py", '''        return (
            self.dim == 1
            and np.all(self.continuous_generators() == 0.0)
            and np.all(self.discrete_generators() == 1.0)
        )''', '''        if self.dim != 1:
            return False
        X, H = self.continuous_generators(), self.discrete_generators()
        if np.any(X != 0.0):
            return False
        return bool(np.all(H == 1.0))'''),
      (R + "reduced_rep.py", '''            if A is None:
                A = mul_ir.algebra()
            else:
                assert A.shape == mul_ir.algebra().shape
                assert np.allclose(A, mul_ir.algebra())
''', '''            B = mul_ir.algebra()
            if A is not None:
                assert A.shape == B.shape
                assert np.allclose(A, B)
            else:
                A = B
'''))
quiet("tensor_product rewritten",
      (R + "tensor_product.py", '''    X1, H1, I1 = rep1.X, rep1.H, np.eye(rep1.dim)
    X2, H2, I2 = rep2.X, rep2.H, np.eye(rep2.dim)
    assert H1.shape[0] == H2.shape[0]  # same discrete dimension
    d = rep1.dim * rep2.dim
    return GenericRep(
        A=rep1.A,
        X=(np.einsum("aij,kl->aikjl", X1, I2) + np.einsum("ij,akl->aikjl", I1, X2)).reshape(
            X1.shape[0], d, d
        ),
        H=np.einsum("aij,akl->aikjl", H1, H2).reshape(H1.shape[0], d, d),
    )''', '''    X1, H1 = rep1.X, rep1.H
    X2, H2 = rep2.X, rep2.H
    d1, d2 = rep1.dim, rep2.dim
    assert len(H1) == len(H2)  # same discrete dimension
    left = X1[:, :, None, :, None] * np.eye(d2)[None, None, :, None, :]
    right = np.eye(d1)[None, :, None, :, None] * X2[:, None, :, None, :]
    X = left + right
    H = H1[:, :, None, :, None] * H2[:, None, :, None, :]
    return GenericRep(
        A=rep1.A,
        X=X.reshape((len(X1), d1 * d2, d1 * d2)),
        H=H.reshape((len(H1), d1 * d2, d1 * d2)),
    )'''),
      (R + "tensor_product.py", '''    CG_list = []
    irreps_list = []
    for ir_out in irrep1 * irrep2:
        CG = np.moveaxis(lie.clebsch_gordan(irrep1, irrep2, ir_out), 3, 1)  # [sol, ir3, ir1, ir2]
        mul = CG.shape[0]
        CG = CG.reshape(CG.shape[0] * CG.shape[1], CG.shape[2] * CG.shape[3])
        CG_list.append(CG)
        irreps_list.append(MulIrrep(mul=mul, rep=ir_out))
    CG = np.concatenate(CG_list, axis=0)
    Q = np.linalg.inv(CG)
    return ReducedRep(A=irrep1.A, irreps=tuple(irreps_list), Q=Q)''', '''    d1, d2 = irrep1.dim, irrep2.dim
    rows, muls = [], []
    for out in irrep1 * irrep2:
        cg = lie.clebsch_gordan(irrep1, irrep2, out)
        paths = cg.shape[0]
        rows.append(np.transpose(cg, (0, 3, 1, 2)).reshape(paths * out.dim, d1 * d2))
        muls.append(MulIrrep(paths, out))
    return ReducedRep(irrep1.A, tuple(muls), np.linalg.inv(np.vstack(rows)))'''),
      (R + "tensor_product.py", '''        q = np.einsum("ijsk,ur,vt->uivjrtsk", q, np.eye(m1), np.eye(m2))
        q = q.reshape(
            q.shape[0] * q.shape[1] * q.shape[2] * q.shape[3],
            q.shape[4] * q.shape[5] * q.shape[6] * q.shape[7],
        )''', '''        e1, e2 = np.eye(m1), np.eye(m2)
        q = np.einsum("ijsk,ur,vt->uivjrtsk", q, e1, e2)
        rows = mulirrep1.dim * mulirrep2.dim
        q = q.reshape(rows, m1 * m2 * mul_ir.dim)'''),
      (R + "tensor_product.py", '''    k = 0
    i = 0
    for mulirrep1 in rep1.irreps:
        j = 0
        for mulirrep2 in rep2.irreps:
            reducedrep = tensor_product(mulirrep1, mulirrep2)
            mulir_list += reducedrep.irreps
            q = reducedrep.Q.reshape(mulirrep1.dim, mulirrep2.dim, reducedrep.dim)
            Q[i : i + mulirrep1.dim, j : j + mulirrep2.dim, k : k + reducedrep.dim] = q
            k += reducedrep.dim
            j += mulirrep2.dim
        i += mulirrep1.dim
    assert k == rep1.dim * rep2.dim
''', '''    k, i = 0, 0
    for a in rep1.irreps:
        da, j = a.dim, 0
        for b in rep2.irreps:
            db = b.dim
            product = tensor_product(a, b)
            dk = product.dim
            mulir_list.extend(product.irreps)
            Q[i : i + da, j : j + db, k : k + dk] = product.Q.reshape(da, db, dk)
            k, j = k + dk, j + db
        i += da
    assert k == rep1.dim * rep2.dim
'''),
      (R + "tensor_product.py", '''    result = rep.create_trivial()

    while True:
        if n & 1:
            result = tensor_product(rep, result)
        n >>= 1

        if n == 0:
            return result
        rep = tensor_product(rep, rep)
''', '''    result = rep.create_trivial()
    while n > 1:
        if n % 2 == 1:
            result = tensor_product(rep, result)
        n = n // 2
        rep = tensor_product(rep, rep)
    if n == 1:
        result = tensor_product(rep, result)
    return result
'''),
      (R + "change_basis.py", '''    iQ = np.linalg.pinv(Q)
    return GenericRep(
        A=rep.algebra(),
        X=Q @ rep.continuous_generators() @ iQ,
        H=Q @ rep.discrete_generators() @ iQ,
    )''', '''    inverse = np.linalg.pinv(Q)

    def conj(M):
        return np.einsum("ij,ajk,kl->ail", Q, M, inverse)

    return GenericRep(A=rep.A, X=conj(rep.X), H=conj(rep.H))'''),
      (R + "change_basis.py", '''    Q = Q if rep.Q is None else Q @ rep.Q
    return ReducedRep''', '''    if rep.Q is not None:
        Q = np.matmul(Q, rep.Q)
    return ReducedRep'''))
quiet("small operations rewritten",
      (R + "clebsch_gordan.py", '''    cg = cg.reshape((cg.shape[0], rep3.dim, rep1.dim, rep2.dim))
    cg = np.moveaxis(cg, 1, 3)
    return cg''', '''    paths = len(cg)
    return cg.reshape((paths, rep3.dim, rep1.dim, rep2.dim)).transpose((0, 2, 3, 1))'''),
      (R + "conjugate.py", '''    return GenericRep(
        A=rep.A,
        X=np.conjugate(rep.X),
        H=np.conjugate(rep.H),
    )''', '''    X, H = (np.conj(m) for m in (rep.X, rep.H))
    return GenericRep(rep.algebra(), X, H)'''),
      (R + "group_product.py", '''    X1 = rep1.X
    X2 = rep2.X
    X = np.zeros((lie_dim, dim, dim), dtype=_get_dtype(X1, X2))
    X[: rep1.lie_dim] = np.einsum("aij,kl->aikjl", X1, I2).reshape(rep1.lie_dim, dim, dim)
    X[rep1.lie_dim :] = np.einsum("ij,akl->aikjl", I1, X2).reshape(rep2.lie_dim, dim, dim)

    H1 = rep1.H
    H2 = rep2.H
    H = np.zeros((H1.shape[0] + H2.shape[0], dim, dim), dtype=_get_dtype(H1, H2))
    H[: H1.shape[0]] = np.einsum("aij,kl->aikjl", H1, I2).reshape(H1.shape[0], dim, dim)
    H[H1.shape[0] :] = np.einsum("ij,akl->aikjl", I1, H2).reshape(H2.shape[0], dim, dim)

    return GenericRep(A=A, X=X, H=H)
''', '''    X = np.concatenate([_left(rep1.X, I2), _right(I1, rep2.X)], axis=0)
    H = np.concatenate([_left(rep1.H, I2), _right(I1, rep2.H)], axis=0)
    assert X.shape == (lie_dim, dim, dim)
    return GenericRep(A=A, X=X, H=H)
'''),
      (R + "group_product.py", '''@dispatch(Rep, Rep)
def group_product''', '''def _left(M, I):
    d = M.shape[1] * I.shape[0]
    return np.einsum("aij,kl->aikjl", M, I).reshape(M.shape[0], d, d)


def _right(I, M):
    d = M.shape[1] * I.shape[0]
    return np.einsum("ij,akl->aikjl", I, M).reshape(M.shape[0], d, d)


@dispatch(Rep, Rep)
def group_product'''),
      (R + "group_product.py", '''        C = np.einsum("aikm,bjln->abijklmn", C1, C2).reshape(
            len(C1) * len(C2), rep1.dim, rep2.dim, rep3.dim
        )
        return C''', '''        shape = (C1.shape[0] * C2.shape[0], rep1.dim, rep2.dim, rep3.dim)
        return np.reshape(np.einsum("aikm,bjln->abijklmn", C1, C2), shape)'''),
      (R + "infer_change_of_basis.py", '''    A = A * np.sqrt(rep2.dim)
    A = round_fn(A)
    return A''', '''    return round_fn(np.sqrt(rep2.dim) * A)'''),
      (R + "real.py", '''    S = lie.infer_change_of_basis(rep, lie.conjugate(rep))
    return S.shape[0] > 0
''', '''    intertwiners = lie.infer_change_of_basis(rep, lie.conjugate(rep))
    return len(intertwiners) != 0
'''),
      (R + "real.py", '''    if np.linalg.norm(rep.X.imag) > 1e-10 or np.linalg.norm(rep.H.imag) > 1e-10:
        raise ValueError("The representation is not real")
    return rep''', '''    for gens in (rep.X, rep.H):
        if np.linalg.norm(gens.imag) > 1e-10:
            raise ValueError("The representation is not real")
    return rep'''),
      (R + "properties.py", '''    X = rep.continuous_generators()
    H = rep.discrete_generators()
    H_unit = np.allclose(H @ np.conj(np.transpose(H, (0, 2, 1))), np.eye(rep.dim), atol=1e-13)
    # exp(X) @ exp(X^H) = 1
    # X + X^H = 0
    X_unit = np.allclose(X + np.conj(np.transpose(X, (0, 2, 1))), 0, atol=1e-13)
    return H_unit and X_unit''', '''    def dagger(M):
        return np.conj(np.swapaxes(M, 1, 2))

    X, H = rep.X, rep.H
    # X + X^H = 0
    if not np.allclose(X + dagger(X), 0, atol=1e-13):
        return False
    return np.allclose(H @ dagger(H), np.eye(rep.dim), atol=1e-13)'''),
      (R + "reduce.py", '''        if any(infer_change_of_basis(mul_ir.rep, ir).shape[0] > 0 for mul_ir in irs):
            continue  # an equivalent irrep has already been found, with all its copies
        Q = infer_change_of_basis(ir, rep)
        mul = Q.shape[0]
        Q = np.einsum("mij->imj", Q).reshape((rep.dim, mul * ir.dim))
        Qs.append(Q)
        irs.append(MulIrrep(mul, ir))
''', '''        known = False
        for mul_ir in irs:
            if len(infer_change_of_basis(mul_ir.rep, ir)) > 0:
                known = True
                break
        if known:
            continue  # an equivalent irrep has already been found, with all its copies
        Q = infer_change_of_basis(ir, rep)
        mul = len(Q)
        irs.append(MulIrrep(mul=mul, rep=ir))
        Qs.append(np.moveaxis(Q, 0, 1).reshape((rep.dim, mul * ir.dim)))
'''),
      (R + "direct_sum.py", '''    return GenericRep(
        A=rep1.A,
        X=_direct_sum(rep1.X, rep2.X),
        H=_direct_sum(rep1.H, rep2.H),
    )''', '''    X = _direct_sum(rep1.continuous_generators(), rep2.continuous_generators())
    H = _direct_sum(rep1.discrete_generators(), rep2.discrete_generators())
    return GenericRep(rep1.A, X, H)'''),
      (R + "change_algebra.py", '''        A=np.einsum("ia,jb,abc,ck->ijk", Q, Q, rep.A, iQ),
        X=np.einsum("ia,auv->iuv", Q, rep.X),''', '''        A=np.einsum("ia,jb,abk->ijk", Q, Q, rep.A @ iQ),
        X=np.tensordot(Q, rep.X, axes=1),'''))
quiet("util rewritten",
      (R + "util.py", '''    for i in range(A.shape[0]):
        v = np.copy(A[i])
        for w in Q:
            v -= np.dot(np.conj(w), v) * w
        norm = np.linalg.norm(v)
        if norm > epsilon:
            v = round_fn(v / norm)
            Q += [v]
    return np.stack(Q) if len(Q) > 0 else np.empty((0, A.shape[1]))
''', '''    for row in A:
        v = row.copy()
        for w in Q:
            v = v - np.vdot(w, v) * w
        norm = np.linalg.norm(v)
        if norm <= epsilon:
            continue
        Q.append(round_fn(v / norm))
    if not Q:
        return np.empty((0, A.shape[1]))
    return np.stack(Q)
'''),
      (R + "util.py", '''    size1 = sum([As[i].shape[1] for i in range(len(As))])
    size2 = sum([As[i].shape[2] for i in range(len(As))])
    R = np.zeros((As[0].shape[0], size1, size2), dtype=np.result_type(float, *As))
    shape_x = 0
    shape_y = 0
    for i in range(len(As)):
        R[:, shape_x : shape_x + As[i].shape[1], shape_y : shape_y + As[i].shape[2]] = As[i]
        shape_x += As[i].shape[1]
        shape_y += As[i].shape[2]
    return R''', '''    rows = sum(a.shape[1] for a in As)
    cols = sum(a.shape[2] for a in As)
    R = np.zeros((As[0].shape[0], rows, cols), dtype=np.result_type(float, *As))
    x = y = 0
    for a in As:
        _, p, q = a.shape
        R[:, x : x + p, y : y + q] = a
        x, y = x + p, y + q
    return R'''),
      (R + "util.py", '''    shape = np.broadcast_shapes(A.shape[:-2], B.shape[:-2])
    A = np.broadcast_to(A, shape + A.shape[-2:])
    B = np.broadcast_to(B, shape + B.shape[-2:])

    m, n = A.shape[-2:]
    p, q = B.shape[-2:]

    output = np.zeros(shape=shape + (m + p, n + q), dtype=np.complex128)
    output[..., :m, :n] = A
    output[..., m:, n:] = B
    return output
''', '''    batch = np.broadcast_shapes(A.shape[:-2], B.shape[:-2])
    m, n = A.shape[-2], A.shape[-1]
    p, q = B.shape[-2], B.shape[-1]
    total = np.zeros(batch + (m + p, n + q), dtype=complex)
    total[..., :m, :n] = A
    total[..., m:, n:] = B
    return total
'''),
      (R + "util.py", '''    As = []
    for x1, x2 in zip(X1, X2):
        # X1 @ S - S @ X2 = 0
        # X1 @ S - (X2.T @ S.T).T = 0
        # A @ vec(S) = 0
        As.append(np.kron(x1, np.eye(d2)) - np.kron(np.eye(d1), x2.T))

    if len(As) == 0:
        As.append(np.zeros((0, d1 * d2)))  # no generators, no constraints

    A = np.concatenate(As, axis=0)  # (n * d1 * d2, d1 * d2)
''', '''    if n == 0:
        A = np.zeros((0, d1 * d2))  # no generators, no constraints
    else:
        I1, I2 = np.eye(d1), np.eye(d2)
        # A @ vec(S) = 0
        A = np.concatenate([np.kron(a, I2) - np.kron(I1, b.T) for a, b in zip(X1, X2)])
'''),
      (R + "util.py", '''    algebra = np.zeros((n, n, n), dtype=pinv.dtype)
    for i in range(n):
        for j in range(n):
            xij = commutator(X[i], X[j])
            algebra[i, j] = xij.reshape(-1) @ pinv
''', '''    algebra = np.zeros((n, n, n), dtype=pinv.dtype)
    for i in range(n):
        for j in range(n):
            bracket = X[i] @ X[j] - X[j] @ X[i]
            algebra[i, j, :] = np.dot(bracket.flatten(), pinv)
'''),
      (R + "util.py", '''    if check_algebra_vs_generators(algebra, X, rtol=rtol, atol=atol):
        return algebra
    else:
        return None
''', '''    closed = check_algebra_vs_generators(algebra, X, rtol=rtol, atol=atol)
    return algebra if closed else None
'''),
      (R + "util.py", '''    p0, q0, p1, q1 = np.zeros_like(n), np.ones_like(n), np.ones_like(n), np.zeros_like(n)
    while True:
        a = n // d
        q2 = q0 + a * q1
        stop = (q2 > max_denominator) | (d0 <= max_denominator)
        if np.all(stop):
            break
''', '''    small = d0 <= max_denominator
    p0, q1 = np.zeros_like(n), np.zeros_like(n)
    q0, p1 = np.ones_like(n), np.ones_like(n)
    while True:
        a = n // d
        q2 = a * q1 + q0
        stop = small | (q2 > max_denominator)
        if stop.all():
            break
'''),
      (R + "util.py", '''    trans = 0
    for i in range(0, len(p)):
        for j in range(i + 1, len(p)):
            if p[i] > p[j]:
                trans += 1

    return 1 if (trans % 2) == 0 else -1
''', '''    inversions = sum(p[i] > p[j] for i in range(len(p)) for j in range(i + 1, len(p)))
    if inversions % 2:
        return -1
    return 1
'''),
      (R + "util.py", '''    left_side = commutator(X[:, None], X[None, :])
    right_side = np.einsum("ijk,kab->ijab", A, X)
    if assert_:
        np.testing.assert_allclose(left_side, right_side, rtol=rtol, atol=atol)
    return np.allclose(left_side, right_side, rtol=rtol, atol=atol)
''', '''    products = np.einsum("iab,jbc->ijac", X, X)
    brackets = products - np.swapaxes(products, 0, 1)
    expected = np.tensordot(A, X, axes=(2, 0))
    if assert_:
        np.testing.assert_allclose(brackets, expected, rtol=rtol, atol=atol)
    return np.allclose(brackets, expected, rtol=rtol, atol=atol)
'''))
quiet("families rewritten",
      (R + "irreps/o3_real.py", '''        if rep1.p * rep2.p == rep3.p:
            return SO3.clebsch_gordan(rep1, rep2, rep3)
        else:
            return np.zeros((0, rep1.dim, rep2.dim, rep3.dim))
''', '''        allowed = rep3.p == rep2.p * rep1.p
        if not allowed:
            return np.zeros((0, rep1.dim, rep2.dim, rep3.dim))
        return SO3.clebsch_gordan(SO3(rep1.l), SO3(rep2.l), SO3(rep3.l))
'''),
      (R + "irreps/o3_real.py", '''        p = rep1.p * rep2.p
        return [O3(l=l, p=p) for l in range(abs(rep1.l - rep2.l), rep1.l + rep2.l + 1, 1)]
''', '''        lo, hi = sorted((rep1.l, rep2.l))
        return [O3(l, rep1.p * rep2.p) for l in range(hi - lo, hi + lo + 1)]
'''),
      (R + "irreps/o3_real.py", '''        return (rep1.l, -((-1) ** rep1.l) * rep1.p) < (rep2.l, -((-1) ** rep2.l) * rep2.p)
''', '''        if rep1.l != rep2.l:
            return rep1.l < rep2.l
        natural = 1 if rep1.l % 2 == 0 else -1
        return -natural * rep1.p < -natural * rep2.p
'''),
      (R + "irreps/o3_real.py", '''            yield O3(l=l, p=1 * (-1) ** l)
            yield O3(l=l, p=-1 * (-1) ** l)
''', '''            natural = (-1) ** l
            for p in (natural, -natural):
                yield O3(l=l, p=p)
'''),
      (R + "irreps/su2.py", '''        if rep3 in rep1 * rep2:
            return clebsch_gordanSU2mat(rep1.j / 2, rep2.j / 2, rep3.j / 2)[None]
        else:
            return np.zeros((0, rep1.dim, rep2.dim, rep3.dim))
''', '''        j1, j2, j3 = rep1.j, rep2.j, rep3.j
        if abs(j1 - j2) <= j3 <= j1 + j2 and (j1 + j2 + j3) % 2 == 0:
            return clebsch_gordanSU2mat(j1 / 2, j2 / 2, j3 / 2)[np.newaxis]
        return np.zeros((0, rep1.dim, rep2.dim, rep3.dim))
'''),
      (R + "irreps/su2.py", '''        return [SU2(j=j) for j in range(abs(rep1.j - rep2.j), rep1.j + rep2.j + 1, 2)]
''', '''        lo = max(rep1.j, rep2.j) - min(rep1.j, rep2.j)
        for j in range(lo, rep1.j + rep2.j + 1, 2):
            yield SU2(j)
'''),
      (R + "irreps/su2.py", '''        for j in itertools.count(0):
            yield SU2(j=j)
''', '''        j = 0
        while True:
            yield cls(j=j)
            j += 1
'''),
      (R + "irreps/so3_real.py", '''        return [SO3(l=l) for l in range(abs(rep1.l - rep2.l), rep1.l + rep2.l + 1, 1)]
''', '''        out = []
        for l in range(abs(rep2.l - rep1.l), rep2.l + rep1.l + 1):
            out.append(SO3(l))
        return out
'''),
      (R + "irreps/z2.py", '''        if rep1.p * rep2.p == rep3.p:
            return np.ones((1, rep1.dim, rep2.dim, rep3.dim))
        else:
            return np.zeros((0, rep1.dim, rep2.dim, rep3.dim))
''', '''        num_paths = 1 if rep1.p * rep2.p * rep3.p == 1 else 0
        return np.ones((num_paths, 1, 1, 1))
'''),
      (R + "irreps/z2.py", '''        p = rep1.p * rep2.p
        return [Z2(p=p)]
''', '''        yield Z2(1 if rep1.p == rep2.p else -1)
'''),
      (R + "irreps/sl2c.py", '''        for l in range(abs(rep1.l - rep2.l), rep1.l + rep2.l + 1, 2):
            for k in range(abs(rep1.k - rep2.k), rep1.k + rep2.k + 1, 2):
                yield SL2C(l=l, k=k)
''', '''        ls = range(abs(rep1.l - rep2.l), rep1.l + rep2.l + 1, 2)
        ks = range(abs(rep1.k - rep2.k), rep1.k + rep2.k + 1, 2)
        return iter([SL2C(l=l, k=k) for l in ls for k in ks])
'''),
      (R + "irreps/sl2c.py", '''        return (rep1.l + rep1.k, rep1.l) < (rep2.l + rep2.k, rep2.l)
''', '''        s1, s2 = rep1.l + rep1.k, rep2.l + rep2.k
        return s1 < s2 or (s1 == s2 and rep1.l < rep2.l)
'''),
      (R + "irreps/so13.py", '''        for rep in SL2C(l=rep1.l, k=rep1.k) * SL2C(l=rep2.l, k=rep2.k):
            yield SO13(l=rep.l, k=rep.k)
''', '''        a, b = SL2C(rep1.l, rep1.k), SL2C(rep2.l, rep2.k)
        yield from (SO13(c.l, c.k) for c in a * b)
'''),
      (R + "irreps/su2_real.py", '''        if is_integer(rep.j):
            return int(2 * rep.j + 1)
        else:
            return 2 * int(2 * rep.j + 1)
''', '''        complex_dim = int(2 * rep.j + 1)
        return complex_dim if is_integer(rep.j) else 2 * complex_dim
'''),
      (R + "irreps/su2_real.py", '''        assert isinstance(rep.j, (float, int))
        assert is_half_integer(rep.j)
        assert rep.j >= 0
''', '''        assert isinstance(rep.j, float) or isinstance(rep.j, int)
        assert rep.j >= 0 and is_half_integer(rep.j)
'''),
      (R + "irreps/so13.py", '''        assert isinstance(rep.l, int)
        assert isinstance(rep.k, int)
        assert rep.l >= 0
        assert rep.k >= 0
        assert (rep.l + rep.k) % 2 == 0
''', '''        for w in (rep.l, rep.k):
            assert isinstance(w, int) and w >= 0
        if rep.l % 2 != rep.k % 2:
            raise AssertionError("l and k must have the same parity")
'''),
      (R + "finite.py", '''        if self.n == 2:
            return -np.ones((1, 1, 1))
        if self.n >= 3:
            H_tr = np.zeros((self.n - 1, self.n - 1))
            H_tr[0, 0] = -1
            for i in range(1, self.n - 1):
                H_tr[i, i] = 1
                H_tr[0, i] = -1
''', '''        if self.n == 2:
            return np.full((1, 1, 1), -1.0)
        if self.n >= 3:
            H_tr = np.eye(self.n - 1)
            H_tr[0, :] = -1
'''))

# ------------------------------------------------------------------ breaking
T, RR, RP, CB, GP, U = R + "tensor_product.py", R + "reduced_rep.py", R + "rep.py", R + "change_basis.py", R + "group_product.py", R + "util.py"
I = R + "irreps/"
catch("C01", "H of generic product swaps factors", (T, 'H=np.einsum("aij,akl->aikjl", H1, H2)', 'H=np.einsum("aij,akl->akilj", H1, H2)'))
catch("C01", "tensor_power multiplies on the other side / wrong count", (T, "        rep = tensor_product(rep, rep)\n", "        rep = tensor_product(rep, rep) if n > 1 else tensor_product(rep, result)\n"))
catch("C01", "T x M reversed", (T, "return tensor_product(MulIrrep(mul=1, rep=irrep1), mulirrep2)", "return tensor_product(mulirrep2, MulIrrep(mul=1, rep=irrep1))"))
catch("C01", "ReducedxReduced: Q_tp on the wrong side", (T, "Q = Q_tp @ Q\n", "Q = Q @ Q_tp\n"))
catch("C01", "Reduced: q2 from rep1 when same dim", (T, "q2 = np.eye(rep2.dim) if rep2.Q is None else rep2.Q", "q2 = np.eye(rep2.dim) if rep2.Q is None or rep1.Q is None else rep2.Q"))
catch("C01", "identity shortcut drops Q when close to identity with loose tol", (T, "if np.allclose(Q, np.eye(Q.shape[0])):", "if np.allclose(Q, np.eye(Q.shape[0]), atol=1.0):"))
catch("C02", "MulIrrep H uses kron on other side", (RR, "return np.stack([direct_sum(*[x for _ in range(self.mul)]) for x in H], axis=0)", "return np.stack([np.kron(x, np.eye(self.mul)) for x in H], axis=0)"))
catch("C02", "ReducedRep X reversed irreps", (RR, "X = direct_sum(*[mul_ir.continuous_generators()[i] for mul_ir in self.irreps])", "X = direct_sum(*[mul_ir.continuous_generators()[i] for mul_ir in sorted(self.irreps, key=lambda m: m.dim)])"))
catch("C02", "direct_sum H uses rep1 twice when same dim", (R + "direct_sum.py", "H=_direct_sum(rep1.H, rep2.H)", "H=_direct_sum(rep1.H, rep2.H if rep1.dim != rep2.dim else rep1.H)"))
catch("C02", "util.direct_sum: nested order", (U, "B = direct_sum(*BCD)\n", "B = direct_sum(*BCD[::-1])\n"))
catch("C02", "block_diagonal column offset uses rows", (U, "shape_y += As[i].shape[2]", "shape_y += As[i].shape[1]"))
catch("C02", "Q inverse replaced by adjoint", (RR, "X = self.Q @ X @ np.linalg.inv(self.Q)\n            Xs += [X]\n        return np.stack(Xs)\n\n    def discrete", "X = self.Q @ X @ np.conj(self.Q.T)\n            Xs += [X]\n        return np.stack(Xs)\n\n    def discrete"))
catch("C03", "change_basis on ReducedRep composes on the right", (CB, "Q = Q if rep.Q is None else Q @ rep.Q", "Q = Q if rep.Q is None else rep.Q @ Q"))
catch("C03", "change_basis H uses adjoint", (CB, "H=Q @ rep.discrete_generators() @ iQ", "H=Q @ rep.discrete_generators() @ np.conj(Q.T)"))
catch("C03", "change_algebra index order", (R + "change_algebra.py", '"ia,jb,abc,ck->ijk", Q, Q, rep.A, iQ', '"ia,jb,abc,kc->ijk", Q, Q, rep.A, iQ'))
catch("C03", "conjugate transposes", (R + "conjugate.py", "X=np.conjugate(rep.X)", "X=-np.transpose(rep.X, (0, 2, 1))"))
catch("C03", "from_rep loses H", (RP, "return GenericRep(rep.algebra(), rep.continuous_generators(), rep.discrete_generators())", "return GenericRep(rep.algebra(), rep.continuous_generators(), rep.discrete_generators()[: rep.lie_dim])"))
catch("C04", "group_product H of second with wrong identity", (GP, 'H[H1.shape[0] :] = np.einsum("ij,akl->aikjl", I1, H2).reshape(H2.shape[0], dim, dim)\n\n    return', 'H[H1.shape[0] :] = np.einsum("akl,ij->akilj", H2, I1).reshape(H2.shape[0], dim, dim)\n\n    return'))
catch("C04", "algebra cross terms", (GP, "    A[rep1.lie_dim :, rep1.lie_dim :, rep1.lie_dim :] = A2\n\n    dim", "    A[rep1.lie_dim :, rep1.lie_dim :, rep1.lie_dim :] = A2\n    if rep1.lie_dim == rep2.lie_dim:\n        A[rep1.lie_dim :, rep1.lie_dim :, : rep1.lie_dim] = A2\n\n    dim"))
catch("C04", "cg of products: path order", (GP, '"aikm,bjln->abijklmn", C1, C2', '"aikm,bjln->abjilkmn", C1, C2'))
catch("C04", "three product nests right", (GP, "return TabulatedIrrepProduct(TabulatedIrrepProduct(rep1, rep2), rep3)", "return TabulatedIrrepProduct(rep1, TabulatedIrrepProduct(rep2, rep3))"))
catch("C04", "product irreps X uses I1 for both", (GP, 'X[: rep.rep1.lie_dim] = np.einsum("aij,kl->aikjl", X1, I2)', 'X[: rep.rep1.lie_dim] = np.einsum("aij,kl->akilj", X1, I2)'))
catch("C05", "jax order", (R + "jax_utils.py", "for x in reversed(discrete):", "for x in discrete:"))
catch("C05", "exp_map on the right", (RP, "output = np.linalg.matrix_power(h, k) @ output", "output = output @ np.linalg.matrix_power(h, k)"))
catch("C05", "exp_map drops negative powers", (RP, "np.linalg.matrix_power(h, k) @ output", "np.linalg.matrix_power(h, abs(k)) @ output"))
catch("C05", "exp transposed", (RP, '"a,aij->ij", continuous_params', '"a,aij->ji", continuous_params'))
catch("C06", "O3 H not stacked", (I + "o3_real.py", "return rep.p * np.eye(rep.dim)[None]", "return rep.p * np.eye(rep.dim)[None] if rep.l < 7 else rep.p * np.eye(rep.dim)"))
catch("C06", "SU2 dim for large", (I + "su2.py", "return rep.j + 1", "return rep.j + 1 if rep.j < 20 else rep.j"))
catch("C06", "SL2C discrete shape", (I + "sl2c.py", "return np.zeros((0, rep.dim, rep.dim))\n\n    def continuous", "return np.zeros((0, rep.l + 1, rep.k + 1))\n\n    def continuous"))
catch("C06", "empty mul shape", (RR, "return np.empty((H.shape[0], self.dim, self.dim))", "return np.empty((0, self.dim, self.dim))"))
catch("C06", "SU2Real dim", (I + "su2_real.py", "return 2 * int(2 * rep.j + 1)", "return int(2 * (2 * rep.j) + 1)"))
catch("C06", "from_generators H shape", (RP, "H = np.zeros((0, X.shape[1], X.shape[1]))", "H = np.zeros((0, X.shape[0], X.shape[0]))"))
catch("C06", "Sn natural n=1", (R + "finite.py", "            return np.zeros((0, 1, 1))\n        if self.n == 2:\n            return _trans", "            return np.ones((1, 1))\n        if self.n == 2:\n            return _trans"))
catch("C07", "generic cg reshape", (R + "clebsch_gordan.py", "cg = cg.reshape((cg.shape[0], rep3.dim, rep1.dim, rep2.dim))\n    cg = np.moveaxis(cg, 1, 3)", "cg = np.moveaxis(cg.reshape((cg.shape[0], rep3.dim, rep2.dim, rep1.dim)), 1, 3)"))
catch("C07", "empty cg of Z2", (I + "z2.py", "return np.zeros((0, rep1.dim, rep2.dim, rep3.dim))", "return np.zeros((0, 1, 1))"))
catch("C07", "empty cg of SL2C ignores third", (I + "sl2c.py", "return np.zeros((0, rep1.dim, rep2.dim, rep3.dim))", "return np.zeros((0, rep1.dim, rep2.dim, rep1.dim * rep2.dim))"))
catch("C07", "SO3 cg transposes", (I + "so3_real.py", '"ij,kl,mn,zikn->zjlm", Q1, Q2, np.conj(Q3.T), C', '"ij,kl,mn,zikn->zljm", Q1, Q2, np.conj(Q3.T), C'))
catch("C08", "make_explicitly_real writes into rep", (R + "change_algebra.py", "    iQ = np.linalg.pinv(Q)\n", "    iQ = np.linalg.pinv(Q)\n    rep.H.setflags(write=True)\n    Q /= 1.0\n"))
catch("C08", "gram_schmidt without copy", (U, "v = np.copy(A[i])", "v = A[i]"))
catch("C08", "unique_with_tol in place", (U, "    distances = np.linalg.norm(a[:, None] - a[None, :], axis=-1)", "    a -= 0\n    distances = np.linalg.norm(a[:, None] - a[None, :], axis=-1)"))
catch("C08", "tensor_product extends rep1.irreps", (T, "    mulir_list = []\n\n    Q = np.zeros", "    mulir_list = rep1.irreps\n    mulir_list = list(mulir_list) if not isinstance(mulir_list, list) else mulir_list\n    del mulir_list[:]\n\n    Q = np.zeros"))
catch("C08", "infer_change_of_basis normalises in place", (R + "infer_change_of_basis.py", "    Y1 = np.concatenate([rep1", "    rep1.X[...] = np.real_if_close(rep1.X)\n    Y1 = np.concatenate([rep1"))
catch("C10", "lru_cache on a mutable array", (I + "so3_real.py", "def change_basis_real_to_complex(l: int)", "import functools\n\n\n@functools.lru_cache(maxsize=None)\ndef change_basis_real_to_complex(l: int)"), (I + "so3_real.py", "    def continuous_generators(rep: \"SO3\") -> np.ndarray:\n", "    @functools.lru_cache(maxsize=None)\n    def continuous_generators(rep: \"SO3\") -> np.ndarray:\n"))
catch("C10", "default argument grows", (U, "def unique_with_tol(a: np.array, *, tol: float):", "def unique_with_tol(a: np.array, *, tol: float, seen=[]):"), (U, "    assert a.ndim >= 1\n    shape = a.shape", "    assert a.ndim >= 1\n    seen.append(len(a))\n    shape = a.shape"))
catch("C10", "module cache keyed by dim", (R + "conjugate.py", "@dispatch(Rep)", "_CACHE = {}\n\n\n@dispatch(Rep)"), (R + "conjugate.py", "    return GenericRep(", "    if rep.dim in _CACHE:\n        return _CACHE[rep.dim]\n    _CACHE[rep.dim] = GenericRep(A=rep.A, X=np.conjugate(rep.X), H=np.conjugate(rep.H))\n    return GenericRep("))
catch("C10", "np.seterr", (U, '    with np.errstate(divide="ignore"):\n        k = ', '    np.seterr(divide="ignore")\n    if True:\n        k = '))
catch("C11", "T x T drops the algebra check", (T, "    assert irrep1.lie_dim == irrep2.lie_dim\n    assert np.allclose(irrep1.A, irrep2.A)  # same lie algebra\n", "    assert irrep1.lie_dim == irrep2.lie_dim\n"))
catch("C11", "from_irreps compares only neighbours of the first", (RR, "                assert np.allclose(A, mul_ir.algebra())\n", "                assert len(irreps) > 2 or np.allclose(A, mul_ir.algebra())\n"))
catch("C11", "compares rep1 with itself", (R + "infer_change_of_basis.py", "np.allclose(rep1.algebra(), rep2.algebra())", "np.allclose(rep1.algebra(), rep1.algebra())"))
catch("C11", "SO3 product accepts O3", (I + "so3_real.py", "        assert isinstance(rep2, SO3)\n", "        assert hasattr(rep2, \"l\")\n"))
catch("C11", "M x M check only of dims", (T, "    assert mulirrep1.lie_dim == mulirrep2.lie_dim\n    assert np.allclose(mulirrep1.A, mulirrep2.A)  # same lie algebra\n", "    assert mulirrep1.lie_dim == mulirrep2.lie_dim\n"), (T, "    assert irrep1.lie_dim == irrep2.lie_dim\n    assert np.allclose(irrep1.A, irrep2.A)  # same lie algebra\n", "    assert irrep1.lie_dim == irrep2.lie_dim\n"))
catch("C11", "direct_sum broadcasts discrete", (R + "direct_sum.py", "    assert rep1.H.shape[0] == rep2.H.shape[0]  # same discrete dimension\n", ""))
catch("C12", "change_basis of reduced becomes generic", (CB, "    return change_basis(MulIrrep(mul=1, rep=rep), Q)", "    return GenericRep(rep.algebra(), Q @ rep.X @ np.linalg.inv(Q), Q @ rep.H @ np.linalg.inv(Q))"))
catch("C12", "missing overload", (T, "@dispatch(MulIrrep, TabulatedIrrep)\n", "@dispatch(MulIrrep, MulIrrep)\n"))
catch("C12", "reduce keeps duplicates out wrongly", (R + "reduce.py", "    return ReducedRep(\n        A=rep.algebra(),\n        irreps=(rep,),", "    return ReducedRep(\n        A=rep.algebra(),\n        irreps=(rep.rep,) * rep.mul,"))
catch("C13", "SU2 product step", (I + "su2.py", "range(abs(rep1.j - rep2.j), rep1.j + rep2.j + 1, 2)]", "range(abs(rep1.j - rep2.j), rep1.j + rep2.j + 1, 2 if rep1.j < 9 else 1)]"))
catch("C13", "O3 parity only even", (I + "o3_real.py", "        p = rep1.p * rep2.p\n        return [O3", "        p = rep1.p * rep2.p if rep1.l + rep2.l < 9 else rep1.p\n        return [O3"))
catch("C13", "Z2 cg inverted for -1", (I + "z2.py", "if rep1.p * rep2.p == rep3.p:", "if rep1.p + rep2.p == 2 * rep3.p or rep1.p + rep2.p == 0:"))
catch("C13", "SL2C product off", (I + "sl2c.py", "for k in range(abs(rep1.k - rep2.k), rep1.k + rep2.k + 1, 2):", "for k in range(abs(rep1.l - rep2.l) if rep1.k == rep2.k else abs(rep1.k - rep2.k), rep1.k + rep2.k + 1, 2):"))
catch("C14", "O3 order ties", (I + "o3_real.py", "(rep1.l, -((-1) ** rep1.l) * rep1.p) < (rep2.l, -((-1) ** rep2.l) * rep2.p)", "(rep1.l, -rep1.p) < (rep2.l, -rep2.p)"))
catch("C14", "SL2C order", (I + "sl2c.py", "(rep1.l + rep1.k, rep1.l) < (rep2.l + rep2.k, rep2.l)", "(rep1.l + rep1.k, rep1.l * rep1.k) < (rep2.l + rep2.k, rep2.l * rep2.k)"))
catch("C14", "SO13 iterator misses", (I + "so13.py", "for l in range(0, sum + 1):", "for l in range(0, max(sum, 1)):"))
catch("C15", "SO13 parity dropped for equal-ish", (I + "so13.py", "assert (rep.l + rep.k) % 2 == 0", "assert (rep.l + rep.k) % 2 == 0 or rep.l == rep.k + 3"))
catch("C15", "SU2Real quarter", (U, "return 2 * x == round(2 * x)", "return 4 * x == round(4 * x)"))
catch("C15", "Z2 zero", (I + "z2.py", "assert rep.p in (1, -1)", "assert -1 <= rep.p <= 1"))
catch("C18", "group_product dtype", (GP, "    H = np.zeros((H1.shape[0] + H2.shape[0], dim, dim), dtype=_get_dtype(H1, H2))\n    H[: H1.shape[0]] = np.einsum(\"aij,kl->aikjl\", H1, I2).reshape(H1.shape[0], dim, dim)\n    H[H1.shape[0] :] = np.einsum(\"ij,akl->aikjl\", I1, H2).reshape(H2.shape[0], dim, dim)\n\n    return GenericRep", "    H = np.zeros((H1.shape[0] + H2.shape[0], dim, dim), dtype=_get_dtype(X1, X2))\n    H[: H1.shape[0]] = np.einsum(\"aij,kl->aikjl\", H1, I2).reshape(H1.shape[0], dim, dim)\n    H[H1.shape[0] :] = np.einsum(\"ij,akl->aikjl\", I1, H2).reshape(H2.shape[0], dim, dim)\n\n    return GenericRep"))
catch("C18", "Q real always", (T, "    if np.allclose(Q.imag, 0):\n        Q = Q.real\n", "    if np.allclose(Q.imag, 0, atol=1e-1):\n        Q = Q.real\n"))
catch("C18", "Reduced Q real if q1 real", (T, "    if np.allclose(Q.imag, 0):\n        Q = Q.real\n", "    if not np.iscomplexobj(q1) and not np.iscomplexobj(q2):\n        Q = Q.real\n"))
catch("C18", "infer algebra float", (U, "algebra = np.zeros((n, n, n), dtype=pinv.dtype)", "algebra = np.zeros((n, n, n))"))
catch("C19", "no continuous gens in ReducedRep", (RR, "        if self.lie_dim == 0:\n            return np.empty((0, self.dim, self.dim))\n", ""))
catch("C19", "no discrete", (RR, "        if n == 0:\n            return np.empty((0, self.dim, self.dim))\n", ""))
catch("C19", "mul 0", (RR, "        if H.shape[0] == 0 or self.mul == 0:", "        if H.shape[0] == 0:"))
catch("C19", "no generators", (U, "    if len(As) == 0:\n        As.append(np.zeros((0, d1 * d2)))  # no generators, no constraints\n", ""))
catch("C19", "gram_schmidt empty", (U, "    return np.stack(Q) if len(Q) > 0 else np.empty((0, A.shape[1]))\n\n\ndef extend", "    return np.stack(Q)\n\n\ndef extend"))
catch("C22", "SU2 from_string no return", (I + "su2.py", "        return cls(j=int(string))", "        cls(j=int(string))"))
catch("C22", "returns NotImplementedError", (GP, '    def iterator(cls) -> Iterator["TabulatedIrrepProduct"]:\n        raise NotImplementedError', '    def iterator(cls) -> Iterator["TabulatedIrrepProduct"]:\n        return NotImplementedError'))
catch("C22", "SO13 lt removed", (I + "so13.py", '    def __lt__(rep1: "SO13", rep2: "SO13") -> bool:\n        return (rep1.l + rep1.k, rep1.l) < (rep2.l + rep2.k, rep2.l)\n', ''))
catch("C22", "SUN clebsch returns None when forbidden", (I + "z2.py", "        else:\n            return np.zeros((0, rep1.dim, rep2.dim, rep3.dim))\n", ""))
catch("C22", "make_explicitly_real returns exception", (R + "real.py", '        raise ValueError("The representation is not real")\n    assert', '        return ValueError("The representation is not real")\n    assert'))
catch("C23", "trivial H zeros", (RP, "H=np.ones((self.discrete_generators().shape[0], 1, 1)),", "H=np.zeros((self.discrete_generators().shape[0], 1, 1)),"))
catch("C23", "trivial H count", (RP, "H=np.ones((self.discrete_generators().shape[0], 1, 1)),", "H=np.ones((min(1, self.discrete_generators().shape[0]), 1, 1)),"))
catch("C23", "product trivial", (GP, "return TabulatedIrrepProduct(rep.rep1.create_trivial(), rep.rep2.create_trivial())", "return TabulatedIrrepProduct(rep.rep1.create_trivial(), rep.rep2)"))
catch("C23", "O3 iterator first odd", (I + "o3_real.py", "            yield O3(l=l, p=1 * (-1) ** l)\n            yield O3(l=l, p=-1 * (-1) ** l)\n", "            yield O3(l=l, p=-1 * (-1) ** l)\n            yield O3(l=l, p=1 * (-1) ** l)\n"))
catch("C23", "is_trivial sign", (RP, "np.all(self.discrete_generators() == 1.0)", "np.all(abs(self.discrete_generators()) == 1.0)"))

ICB = R + "infer_change_of_basis.py"
catch("C17", "is_unitary or", (R + "properties.py", "return H_unit and X_unit", "return H_unit and X_unit if rep.lie_dim else True"))
catch("C17", "is_unitary symmetric H", (R + "properties.py", "H @ np.conj(np.transpose(H, (0, 2, 1)))", "H @ np.conj(np.transpose(H, (0, 2, 1)))[::-1]"))
catch("C17", "is_unitary transpose only", (R + "properties.py", "X_unit = np.allclose(X + np.conj(np.transpose(X, (0, 2, 1))), 0, atol=1e-13)", "X_unit = np.allclose(X + np.transpose(X, (0, 2, 1)).real, 0, atol=1e-13)"))
catch("C17", "is_irreducible X only", (R + "is_irreducible.py", "np.concatenate([rep.X, rep.H], axis=0)", "rep.X if rep.lie_dim else rep.H"))
catch("C17", "is_irreducible drops last", (R + "is_irreducible.py", "np.concatenate([rep.X, rep.H], axis=0)", "np.concatenate([rep.X, rep.H[:1]], axis=0)"))
catch("C17", "is_irreducible ge", (U, "    return len(Q) == 1", "    return len(Q) <= 2"))
catch("C17", "is_real itself", (R + "real.py", "    S = lie.infer_change_of_basis(rep, lie.conjugate(rep))\n    return S", "    S = lie.infer_change_of_basis(rep, rep)\n    return S"))
catch("C17", "is_real generic X only", (R + "real.py", "    S = lie.infer_change_of_basis(rep, lie.conjugate(rep))\n    return S", "    rep = lie.GenericRep(rep.A, rep.X, rep.H[:0])\n    S = lie.infer_change_of_basis(rep, lie.conjugate(rep))\n    return S"))
catch("C17", "icb one H", (ICB, "    Y1 = np.concatenate([rep1.continuous_generators(), rep1.discrete_generators()])\n    Y2 = np.concatenate([rep2.continuous_generators(), rep2.discrete_generators()])", "    Y1 = np.concatenate([rep1.continuous_generators(), rep1.discrete_generators()[:1]])\n    Y2 = np.concatenate([rep2.continuous_generators(), rep2.discrete_generators()[:1]])"))
catch("C17", "reduce X only", (R + "reduce.py", "    Ys = decompose_rep_into_irreps(np.concatenate([rep.X, rep.H]))\n", "    Ys = decompose_rep_into_irreps(np.concatenate([rep.X, np.real(rep.H)]))\n"))
catch("C17", "linear system real part", (U, "As.append(np.kron(x1, np.eye(d2)) - np.kron(np.eye(d1), x2.T))", "As.append(np.kron(np.triu(x1), np.eye(d2)) - np.kron(np.eye(d1), x2.T))"))
catch("C20", "no check", (ICB, "    np.testing.assert_allclose(\n        np.einsum(\"aij,bjk->abik\", Y2, A),\n        np.einsum(\"bij,ajk->abik\", A, Y1),\n        rtol=1e-8,\n        atol=1e-8,\n    )\n", ""))
catch("C20", "check the first solution", (ICB, "        np.einsum(\"aij,bjk->abik\", Y2, A),\n        np.einsum(\"bij,ajk->abik\", A, Y1),", "        np.einsum(\"aij,bjk->abik\", Y2, A[:1]),\n        np.einsum(\"bij,ajk->abik\", A[:1], Y1),"))
catch("C20", "check X only", (ICB, "        np.einsum(\"aij,bjk->abik\", Y2, A),\n        np.einsum(\"bij,ajk->abik\", A, Y1),", "        np.einsum(\"aij,bjk->abik\", Y2[: rep1.lie_dim], A),\n        np.einsum(\"bij,ajk->abik\", A, Y1[: rep1.lie_dim]),"))
catch("C20", "check summed over generators", (ICB, "        np.einsum(\"aij,bjk->abik\", Y2, A),\n        np.einsum(\"bij,ajk->abik\", A, Y1),", "        np.einsum(\"aij,bjk->abi\", Y2, A),\n        np.einsum(\"bij,ajk->abi\", A, Y1),"))
catch("C20", "coarse tolerance", (ICB, "        rtol=1e-8,\n        atol=1e-8,\n    )\n\n    assert A.dtype", "        rtol=1e-8,\n        atol=1e-1,\n    )\n\n    assert A.dtype"))
catch("C20", "algebra always returned", (U, "    if check_algebra_vs_generators(algebra, X, rtol=rtol, atol=atol):\n        return algebra\n    else:\n        return None", "    if n < 3 and not check_algebra_vs_generators(algebra, X, rtol=rtol, atol=atol):\n        return None\n    return algebra"))
catch("C20", "algebra checked on neighbours", (U, "    left_side = commutator(X[:, None], X[None, :])\n    right_side = np.einsum(\"ijk,kab->ijab\", A, X)", "    left_side = commutator(X[:-1], X[1:])\n    right_side = np.einsum(\"iik,kab->iab\", A[:-1, 1:], X)"))
catch("C20", "algebra checked in the trace", (U, "    return np.allclose(left_side, right_side, rtol=rtol, atol=atol)", "    return np.allclose(np.linalg.norm(left_side, axis=(2, 3)), np.linalg.norm(right_side, axis=(2, 3)), rtol=rtol, atol=atol)"))
catch("C20", "make real H unchecked", (R + "real.py", "if np.linalg.norm(rep.X.imag) > 1e-10 or np.linalg.norm(rep.H.imag) > 1e-10:", "if np.linalg.norm(rep.X.imag) > 1e-10 and np.linalg.norm(rep.H.imag) > 1e-10:"))
catch("C20", "make real first H", (R + "real.py", "np.linalg.norm(rep.H.imag) > 1e-10", "np.linalg.norm(rep.H[:1].imag) > 1e-10"))
catch("C20", "triplet H unchecked", (RP, "        np.einsum(\"dil,djm,zijk->zdlmk\", H1, H2, cg),", "        np.einsum(\"zijk,dlk->zdijl\", cg, H3),"))
catch("C20", "triplet rep2 algebra", (RP, "    rep2.check_algebra_vs_generators(rtol=rtol, atol=atol)\n", ""))
catch("C20", "triplet generator skipped", (RP, "        for i in range(X1.shape[0]):\n            if not", "        for i in range(X1.shape[0] - 1):\n            if not"))
catch("C20", "assert_ ignored", (U, "    if assert_:\n        np.testing.assert_allclose(left_side, right_side, rtol=rtol, atol=atol)\n", ""))
stay("C17,C20", "icb rewritten", (ICB, "    np.testing.assert_allclose(\n        np.einsum(\"aij,bjk->abik\", Y2, A),\n        np.einsum(\"bij,ajk->abik\", A, Y1),\n        rtol=1e-8,\n        atol=1e-8,\n    )\n", "    for S in A:\n        for y1, y2 in zip(Y1, Y2):\n            if np.linalg.norm(y2 @ S - S @ y1) > 1e-8:\n                raise AssertionError(\"no intertwiner\")\n"))
stay("C17,C20", "icb max", (ICB, "    np.testing.assert_allclose(\n        np.einsum(\"aij,bjk->abik\", Y2, A),\n        np.einsum(\"bij,ajk->abik\", A, Y1),\n        rtol=1e-8,\n        atol=1e-8,\n    )\n", "    if not np.allclose(Y2[:, None] @ A[None], A[None] @ Y1[:, None], rtol=1e-8, atol=1e-8):\n        raise AssertionError(\"no intertwiner\")\n"))
stay("C17,C20", "real abs max", (R + "real.py", "if np.linalg.norm(rep.X.imag) > 1e-10 or np.linalg.norm(rep.H.imag) > 1e-10:", "if any(np.any(np.abs(g.imag) > 1e-10) for g in (rep.X, rep.H)):"))
stay("C17", "is_unitary loop", (R + "properties.py", "    H_unit = np.allclose(H @ np.conj(np.transpose(H, (0, 2, 1))), np.eye(rep.dim), atol=1e-13)\n", "    H_unit = all(np.allclose(h @ h.conj().T, np.eye(rep.dim), atol=1e-13) for h in H)\n"))
stay("C17", "is_real shortcut", (R + "real.py", "    S = lie.infer_change_of_basis(rep, lie.conjugate(rep))\n    return S.shape[0] > 0", "    if not np.iscomplexobj(rep.X) and not np.iscomplexobj(rep.H):\n        return True\n    S = lie.infer_change_of_basis(lie.conjugate(rep), rep)\n    return len(S) != 0"))
stay("C17", "irreducible schur", (R + "is_irreducible.py", "    return _is", "    if rep.lie_dim > 0 and _is_irreducible(rep.X, epsilon=epsilon):\n        return True\n    return _is"))
stay("C20", "algebra check loop", (U, "    left_side = commutator(X[:, None], X[None, :])\n    right_side = np.einsum(\"ijk,kab->ijab\", A, X)\n", "    left_side = np.array([[x @ y - y @ x for y in X] for x in X]).reshape((len(X), len(X)) + X.shape[1:])\n    right_side = np.tensordot(A, X, axes=(2, 0))\n"))
# ------------------------------------------------------------------ C16
SU, SL, SO, O, Z, SN, RR = (R + "irreps/" + x for x in ("su2.py", "sl2c.py", "so13.py", "o3_real.py", "z2.py", "sun.py", "../reduced_rep.py"))
RR = R + "reduced_rep.py"
S3 = R + "irreps/so3_real.py"
catch("C16", "sl2c match", (SL, 're.fullmatch(r"\\((\\d+),(\\d+)\\)", s.strip())', 're.match(r"\\((\\d+),(\\d+)\\)", s.strip())'))
catch("C16", "sl2c search", (SL, 're.fullmatch(r"\\((\\d+),(\\d+)\\)", s.strip())', 're.search(r"(\\d+),(\\d+)", s.strip())'))
catch("C16", "sl2c swapped", (SL, "l=int(m.group(1)), k=int(m.group(2))", "l=int(m.group(2)), k=int(m.group(1))"))
catch("C16", "so13 one digit", (SO, 're.fullmatch(r"\\((\\d+),(\\d+)\\)", s.strip())', 're.fullmatch(r"\\((\\d),(\\d+)\\)", s.strip())'))
catch("C16", "so13 no strip", (SO, 's.strip())', 's)'))
catch("C16", "so13 dollar", (SO, 're.fullmatch(r"\\((\\d+),(\\d+)\\)", s.strip())', 're.match(r"\\((\\d+),(\\d+)", s.strip())'))
catch("C16", "so3 digits only", (S3, "return cls(l=int(s))", 'return cls(l=int("".join(c for c in s if c.isdigit())))'))
catch("C16", "so3 strip letters", (S3, "return cls(l=int(s))", 'return cls(l=int(s.rstrip("e ")))'))
catch("C16", "so3 first", (S3, "return cls(l=int(s))", 'return cls(l=int(s.split()[0]))'))
catch("C16", "o3 first digit", (O, "l = int(s[:-1])", "l = int(s[0])"))
catch("C16", "o3 default even", (O, '{"e": 1, "o": -1}[s[-1]]', '{"e": 1, "o": -1}.get(s[-1], 1)'))
catch("C16", "o3 else odd", (O, '{"e": 1, "o": -1}[s[-1]]', '1 if s[-1] == "e" else -1'))
catch("C16", "o3 in", (O, '{"e": 1, "o": -1}[s[-1]]', '1 if "e" in s else -1'))
catch("C16", "o3 no strip", (O, "        s = s.strip()\n        l =", "        l ="))
catch("C16", "o3 signs", (O, '{"e": 1, "o": -1}[s[-1]]', '{"e": -1, "o": 1}[s[-1]]'))
catch("C16", "z2 first", (Z, '{"e": 1, "o": -1}[s]', '{"e": 1, "o": -1}[s[0]]'))
catch("C16", "z2 last", (Z, '{"e": 1, "o": -1}[s]', '{"e": 1, "o": -1}[s[-1]]'))
catch("C16", "z2 startswith", (Z, '{"e": 1, "o": -1}[s]', '1 if s.startswith("e") else {"o": -1}[s]'))
catch("C16", "sun strip parens", (SN, '''        m = re.fullmatch(r"\\((\\d+(?:,\\d+)*)\\)", s.strip())
        assert m is not None
        return cls(S=tuple(map(int, m.group(1).split(","))))''', '''        return cls(S=tuple(int(x) for x in s.strip().strip("()").split(",") if x))'''))
catch("C16", "sun findall", (SN, '''        m = re.fullmatch(r"\\((\\d+(?:,\\d+)*)\\)", s.strip())
        assert m is not None
        return cls(S=tuple(map(int, m.group(1).split(","))))''', '''        return cls(S=tuple(int(x) for x in re.findall(r"\\d+", s)))'''))
catch("C16", "sun sorted", (SN, '''return cls(S=tuple(map(int, m.group(1).split(","))))''', '''return cls(S=tuple(sorted(map(int, m.group(1).split(",")), reverse=True)))'''))
catch("C16", "sun digits", (SN, '''return cls(S=tuple(map(int, m.group(1).split(","))))''', '''return cls(S=tuple(int(c) for c in m.group(1) if c != ","))'''))
catch("C16", "sun base class", (SN, '''return cls(S=tuple(map(int, m.group(1).split(","))))''', '''return SUN(S=tuple(map(int, m.group(1).split(","))))'''))
catch("C16", "sun trailing comma", (SN, '(\\d+(?:,\\d+)*)\\)", s.strip())', '(\\d+(?:,\\d+)*),?\\)", s.strip())'))
catch("C16", "mul first two", (RR, '            mul, rep = string.split("x")', '            mul, rep = string.split("x")[:2]'))
catch("C16", "mul last", (RR, '            mul, rep = string.split("x")', '            mul, *_, rep = string.split("x")'))
catch("C16", "mul default", (RR, "return cls(mul=int(mul), rep=", "return cls(mul=int(mul or 1), rep="))
catch("C16", "mul one char", (RR, '''        if "x" in string:
            mul, rep = string.split("x")''', '''        if string[1:2] == "x":
            mul, rep = string[0], string[2:]'''))
catch("C16", "mul zero is one", (RR, "return cls(mul=int(mul), rep=", "return cls(mul=max(int(mul), 1), rep="))
catch("C16", "mul partition", (RR, '            mul, rep = string.split("x")', '            mul, _, rep = string.rpartition("x")\n            mul = mul.split("x")[-1]'))
catch("C16", "sum skips empty", (RR, 'for term in string.split("+")]', 'for term in string.split("+") if term.strip()]'))
catch("C16", "sum strips plus", (RR, 'for term in string.split("+")]', 'for term in string.strip(" +").split("+")]'))
catch("C16", "sum reversed", (RR, 'for term in string.split("+")]', 'for term in reversed(string.split("+"))]'))
catch("C16", "sum sorted", (RR, 'for term in string.split("+")]', 'for term in sorted(string.split("+"))]'))
catch("C16", "sum unique", (RR, 'for term in string.split("+")]', 'for term in dict.fromkeys(string.split("+"))]'))
catch("C16", "sum maxsplit", (RR, 'for term in string.split("+")]', 'for term in string.split("+")[:2]]'))
stay("C16", "string parsers rewritten", (SL, '''        m = re.fullmatch(r"\\((\\d+),(\\d+)\\)", s.strip())
        assert m is not None
        return cls(l=int(m.group(1)), k=int(m.group(2)))''', '''        match = re.match(r"^\\s*\\(([0-9]+),([0-9]+)\\)\\s*$", s)
        if match is None:
            raise ValueError(f"invalid label {s!r}")
        l, k = map(int, match.groups())
        return cls(l=l, k=k)'''), (O, '''        s = s.strip()
        l = int(s[:-1])
        p = {"e": 1, "o": -1}[s[-1]]
        return cls(l=l, p=p)''', '''        label, parity = s.strip()[:-1], s.strip()[-1]
        if parity == "e":
            return cls(l=int(label), p=1)
        elif parity == "o":
            return cls(l=int(label), p=-1)
        raise KeyError(parity)'''), (Z, '''        s = s.strip()
        p = {"e": 1, "o": -1}[s]
        return cls(p=p)''', '''        return cls(p={"e": 1, "o": -1}[s.strip()])'''), (SN, '''        return cls(S=tuple(map(int, m.group(1).split(","))))''', '''        weights = []
        for w in m.group(1).split(","):
            weights.append(int(w))
        return cls(S=tuple(weights))'''), (RR, '''        if "x" in string:
            mul, rep = string.split("x")
        else:
            mul, rep = 1, string
        return cls(mul=int(mul), rep=cls_irrep.from_string(rep))''', '''        parts = string.split("x")
        if len(parts) == 1:
            return cls(1, cls_irrep.from_string(string))
        assert len(parts) == 2
        return cls(mul=int(parts[0]), rep=cls_irrep.from_string(parts[1]))'''), (RR, '''        return cls.from_irreps(
            [MulIrrep.from_string(term, cls_irrep) for term in string.split("+")], Q
        )''', '''        terms = []
        for term in string.split("+"):
            terms.append(MulIrrep.from_string(term, cls_irrep))
        return cls.from_irreps(tuple(terms), Q)'''))
stay("C16", "string parsers other", (SL, '''        m = re.fullmatch(r"\\((\\d+),(\\d+)\\)", s.strip())
        assert m is not None
        return cls(l=int(m.group(1)), k=int(m.group(2)))''', '''        s = s.strip()
        assert s.startswith("(") and s.endswith(")")
        l, k = s[1:-1].split(",")
        assert l.isdigit() and k.isdigit()
        return cls(l=int(l), k=int(k))'''), (SU, "return cls(j=int(string))", "string = string.strip()\n        j = int(string)\n        return cls(j=j)"), (O, '''        s = s.strip()
        l = int(s[:-1])
        p = {"e": 1, "o": -1}[s[-1]]''', '''        m = re.fullmatch(r"(.*)([eo])", s.strip())
        if not m:
            raise ValueError(s)
        l, p = int(m.group(1)), 1 if m.group(2) == "e" else -1'''), (O, "import", "import re\nimport") if False else (O, "from dataclasses import dataclass", "import re\nfrom dataclasses import dataclass"), (RR, '''            mul, rep = string.split("x")
        else:
            mul, rep = 1, string
        return cls(mul=int(mul), rep=cls_irrep.from_string(rep))''', '''            mul, rep = string.split("x")
            mul = int(mul)
        else:
            mul = 1
            rep = string
        rep = cls_irrep.from_string(rep)
        return cls(mul, rep)'''))

# ------------------------------------------------------------------ C09
RT, UT, PM, SUNF = R + "reduced_tensor_product.py", R + "util.py", R + "discrete_groups/perm.py", R + "irreps/sun.py"
catch("C09", "sun product unsorted", (SUNF, "sorted(set(mul_rep(rep1.S, rep2.S)))", "set(mul_rep(rep1.S, rep2.S))"))
catch("C09", "sun product sorted by sum only", (SUNF, "sorted(set(mul_rep(rep1.S, rep2.S)))", "sorted(set(mul_rep(rep1.S, rep2.S)), key=dim)"))
catch("C09", "permutation base unsorted", (RT, '''    base = sorted(
        [sorted([sorted(xs) for xs in x]) for x in base]
    )''', '''    base = [sorted([sorted(xs) for xs in x]) for x in base]'''))
catch("C09", "permutation sign pair unsorted", (RT, '''        [sorted([sorted(xs) for xs in x]) for x in base]''', '''        [[sorted(xs) for xs in x] for x in base]'''))
catch("C09", "subrepr order", (RT, "    sor = sorted(sub_f0)\n", "    sor = list(sub_f0)\n"))
catch("C09", "sub dims order", (RT, "sub_dims = tuple(dims[i] for i in sorted(sub_f0))", "sub_dims = tuple(dims[i] for i in sub_f0)"))
catch("C09", "nullspace sketch", (UT, "    val, vec = np.linalg.eigh(A)\n    X = vec.T[np.abs(val) < epsilon]\n", "    val, vec = np.linalg.eigh(A + epsilon**2 * np.diag(np.random.rand(len(A))))\n    X = vec.T[np.abs(val) < epsilon]\n"))
catch("C09", "random pivots in gram schmidt", (UT, "    for i in range(A.shape[0]):\n        v = np.copy(A[i])", "    for i in np.random.permutation(A.shape[0]):\n        v = np.copy(A[i])"))
catch("C09", "fresh generator", (UT, "    w = np.random.rand(len(Q))\n", "    w = np.random.rand(len(Q))\n"), (UT, '''    return np.stack(Q) if len(Q) > 0 else np.empty((0, A.shape[1]))
''', '''    jitter = np.random.default_rng().random(len(Q)) * 1e-12
    return np.stack(Q) * (1 + jitter[:, None]) if len(Q) > 0 else np.empty((0, A.shape[1]))
'''))
catch("C09", "environment tolerance", (UT, "import numpy as np\n", "import os\n\nimport numpy as np\n"), (UT, "    X = vec.T[np.abs(val) < epsilon]\n", "    epsilon = float(os.environ.get(\"LIE_EPS\", epsilon))\n    X = vec.T[np.abs(val) < epsilon]\n"))
catch("C09", "empty containers", (UT, "    output = np.zeros(shape=shape + (m + p, n + q), dtype=np.complex128)\n", "    output = np.empty(shape=shape + (m + p, n + q), dtype=np.complex128)\n"))
catch("C09", "empty algebra", (R + "group_product.py", "    A = np.zeros((lie_dim, lie_dim, lie_dim), dtype=_get_dtype(A1, A2))\n    A[: rep1", "    A = np.empty((lie_dim, lie_dim, lie_dim), dtype=_get_dtype(A1, A2))\n    A[: rep1"))
catch("C09", "order by hash", (R + "irrep.py", "import", "import") if False else (RT, "key=lambda i: (self.irreps[i].rep, self.irreps[i].mul))", "key=lambda i: (hash(self.irreps[i].rep), self.irreps[i].mul))"))
catch("C09", "is_irreducible random", (R + "is_irreducible.py", "import", "import") if False else (UT, "    Q = infer_change_of_basis(X, X, epsilon=epsilon)  # X @ Q == Q @ X\n    return len(Q) == 1", "    Q = infer_change_of_basis(X, X, epsilon=epsilon)  # X @ Q == Q @ X\n    w = np.random.normal(size=len(Q))\n    val = np.linalg.eigvals(np.einsum(\"n,nij->ij\", w, Q))\n    return bool(np.ptp(val.real) < 1e-6)"))
catch("C09", "time seeded choice", (PM, "import random\nimport math\n", "import random\nimport math\nimport time\n"), (PM, "    for _ in range(n):\n        j = i % n\n", "    random.seed(time.time())\n    for _ in range(n):\n        j = i % n\n"))
catch("C09", "cycles of a set pop", (RT, "        x = max(x, key=lambda xs: sum(s for s, x in xs))\n", "        x = max(set(map(tuple, x)), key=lambda xs: sum(s for s, x in xs))\n"))
stay("C09", "random helper extracted", (UT, '''    w = np.random.rand(len(Q))
    M = np.einsum("n,nij->ij", w, Q)
''', '''    M = _random_combination(Q)
'''), (UT, "def decompose_rep_into_irreps(", '''def _random_combination(Q):
    """a generic element of the commutant"""
    return np.einsum("n,nij->ij", np.random.rand(len(Q)), Q)


def decompose_rep_into_irreps('''))
stay("C09", "seeded and set helpers", (UT, "    w = np.random.rand(len(Q))\n", "    w = np.random.default_rng(0).random(len(Q))\n"), (SUNF, "sorted(set(mul_rep(rep1.S, rep2.S)))", "sorted({S for S in mul_rep(rep1.S, rep2.S)})"),
     (RT, "        subset", "        subset") if False else (PM, "    for c in to_cycles(p):\n        if len(c) % 2 == 0:\n            s = -s\n    return s", "    even = [c for c in to_cycles(p) if len(c) % 2 == 0]\n    return -1 if len(even) % 2 else s"),
     (RT, "    sor = sorted(sub_f0)\n", "    sor = list(sub_f0)\n    sor.sort()\n"),
     (R + "reduced_rep.py", "            return np.empty((X.shape[0], self.dim, self.dim))", "            out = np.empty((X.shape[0], self.dim, self.dim))\n            out[:] = 0\n            return out"))
stay("C09", "empty then filled", (UT, "    output = np.zeros(shape=shape + (m + p, n + q), dtype=np.complex128)\n", "    output = np.empty(shape=shape + (m + p, n + q), dtype=np.complex128)\n    output[..., :m, n:] = 0\n    output[..., m:, :n] = 0\n"))

# ------------------------------------------------------------------ C25
ML = '''    for alpha in range(C.shape[0]):
        M_list = [M_eldest]
        while len(M_list) != dimS3:
'''
catch("C25", "worklist shared by the copies", (SUNF, ML, '''    M_list = [M_eldest]
    for alpha in range(C.shape[0]):
        while len(M_list) != dimS3:
'''))
catch("C25", "first copy only", (SUNF, "    for alpha in range(C.shape[0]):\n", "    for alpha in range(min(C.shape[0], 1)):\n"))
catch("C25", "all but the last copy", (SUNF, "    for alpha in range(C.shape[0]):\n", "    for alpha in range(max(C.shape[0] - 1, 1)):\n"))
catch("C25", "parent of the first copy", (SUNF, "C[alpha, :, :, mp] = construct_lower_cg(S1, S2, S3, Mp, Mc, l, alpha, C)", "C[alpha, :, :, mp] = construct_lower_cg(S1, S2, S3, Mp, Mc, l, 0, C)"))
catch("C25", "last state skipped", (SUNF, "        while len(M_list) != dimS3:\n", "        while len(M_list) < max(dimS3 - 1, 1):\n"))
catch("C25", "eldest of the first copy", (SUNF, "            (C_eldest.reshape(C_eldest.shape[0], dimS1, dimS2, 1)),", "            (np.broadcast_to(C_eldest[:1, :, :, None], (C_eldest.shape[0], dimS1, dimS2, 1))),"))
catch("C25", "stored at the parent", (SUNF, "            mp = M_to_index(Mp)\n            C[alpha", "            mp = M_to_index(Mc)\n            C[alpha"))
catch("C25", "cached lists of states", (SUNF, ML, '''    done = {}
    for alpha in range(C.shape[0]):
        M_list = done.setdefault(S3, [M_eldest])
        while len(M_list) != dimS3:
'''))
stay("C25", "worklist function", (SUNF, '''    for alpha in range(C.shape[0]):
        M_list = [M_eldest]
        while len(M_list) != dimS3:
            Mc, Mp, l = search_state(M_list)
            mp = M_to_index(Mp)
            C[alpha, :, :, mp] = construct_lower_cg(S1, S2, S3, Mp, Mc, l, alpha, C)
            M_list.append(Mp)
    return C
''', '''    steps = []
    M_list = [M_eldest]
    while len(M_list) != dimS3:
        step = search_state(M_list)
        steps.append(step)
        M_list.append(step[1])
    for alpha in range(C.shape[0]):
        for Mc, Mp, l in steps:
            C[alpha, :, :, M_to_index(Mp)] = construct_lower_cg(S1, S2, S3, Mp, Mc, l, alpha, C)
    return C
'''))
stay("C25", "states outside, copies inside", (SUNF, '''    for alpha in range(C.shape[0]):
        M_list = [M_eldest]
        while len(M_list) != dimS3:
            Mc, Mp, l = search_state(M_list)
            mp = M_to_index(Mp)
            C[alpha, :, :, mp] = construct_lower_cg(S1, S2, S3, Mp, Mc, l, alpha, C)
            M_list.append(Mp)
    return C
''', '''    M_list = [M_eldest]
    while len(M_list) != dimS3:
        Mc, Mp, l = search_state(M_list)
        new = [construct_lower_cg(S1, S2, S3, Mp, Mc, l, alpha, C) for alpha in range(len(C))]
        for alpha, x in enumerate(new):
            C[alpha, :, :, M_to_index(Mp)] = x
        M_list.append(Mp)
    return C
'''))
stay("C25", "filled from zeros, einsum lowering", (SUNF, '''    C = np.concatenate(
        (
            np.zeros((C_eldest.shape[0], dimS1, dimS2, dimS3 - 1)),
            (C_eldest.reshape(C_eldest.shape[0], dimS1, dimS2, 1)),
        ),
        axis=-1,
    )
''', '''    C = np.zeros((C_eldest.shape[0], dimS1, dimS2, dimS3))
    C[..., -1] = C_eldest
'''), (SUNF, '''    for m1 in range(dimS1):
        for m2 in range(dimS2):
            for n1 in range(dimS1):
                for n2 in range(dimS2):
                    if n2 == m2:
                        CG[n1, n2] += (
                            C[alpha, m1, m2, mc]
                            * lower_ladder(l, index_to_M(S1, n1), index_to_M(S1, m1))
                            * upper_ladder(l, index_to_M(S3, mc), index_to_M(S3, mp))
                        )
                    if n1 == m1:
                        CG[n1, n2] += (
                            C[alpha, m1, m2, mc]
                            * lower_ladder(l, index_to_M(S2, n2), index_to_M(S2, m2))
                            * upper_ladder(l, index_to_M(S3, mc), index_to_M(S3, mp))
                        )
''', '''    up = upper_ladder(l, index_to_M(S3, mc), index_to_M(S3, mp))
    J1 = np.array([[lower_ladder(l, N, M) for M in S_to_Ms(S1)] for N in S_to_Ms(S1)])
    J2 = np.array([[lower_ladder(l, N, M) for M in S_to_Ms(S2)] for N in S_to_Ms(S2)])
    CG += up * (J1 @ C[alpha, :, :, mc] + C[alpha, :, :, mc] @ J2.T)
'''))
catch("C25", "one coupling kept", (SUNF, "    C_eldest = clebsch_gordan_eldest(S1, S2, M_eldest)\n", "    C_eldest = clebsch_gordan_eldest(S1, S2, M_eldest)[:1]\n"))

# ------------------------------------------------------------------ C21
catch("C21", "sorted lists by multiplicity", (RT, "            list=[self.list[i] for i in indices],\n", "            list=[self.list[i] for i in sorted(indices, key=lambda i: self.irreps[i].mul)],\n"))
catch("C21", "irreps sorted alone", (RT, '''        return IrrepsArray(
            list=[self.list[i] for i in indices],
            irreps=tuple(self.irreps[i] for i in indices),
        )
''', '''        return IrrepsArray(
            list=self.list,
            irreps=tuple(self.irreps[i] for i in indices),
        )
'''))
catch("C21", "simplify merges equal dimensions", (RT, "            if i == 0 or irrep != irreps[-1]:", "            if i == 0 or irrep.dim != irreps[-1].dim:"))
catch("C21", "simplify counts one", (RT, "                list[-1] = np.concatenate([list[-1], x], axis=-2)", "                list[-1] = np.concatenate([list[-1], list[-1]], axis=-2)") )
catch("C21", "initial cursor by irrep", (RT, '''            cursor += mul * ir.dim
        return x_list''', '''            cursor += ir.dim
        return x_list'''))
catch("C21", "initial basis not transposed", (RT, "np.linalg.inv(reduced_rep.Q).T,", "np.linalg.inv(reduced_rep.Q),"))
catch("C21", "initial basis not inverted", (RT, "np.linalg.inv(reduced_rep.Q).T,", "reduced_rep.Q.T,"))
catch("C21", "coefficients of the swapped pair", (RT, "cg = ir.clebsch_gordan(ir1, ir2, ir)", "cg = ir.clebsch_gordan(ir2, ir1, ir)"))
catch("C21", "product sorted by coefficients", (RT, "            for ir in ir1 * ir2:\n                if filter", "            for ir in reversed(ir1 * ir2):\n                if filter"),
      (RT, "                new_irreps.append((cg.shape[0] * mul1 * mul2, ir))\n", "                new_irreps.insert(0, (cg.shape[0] * mul1 * mul2, ir))\n"))
catch("C21", "constrained blocks out of step", (RT, "zip(rotation_basis.irreps, rotation_basis.list):\n        mul, ir = rotation", "zip(rotation_basis.irreps, sorted(rotation_basis.list, key=lambda x: -x.shape[-2])):\n        mul, ir = rotation"))
catch("C21", "mixing over vectors of the block", (RT, 'new_list.append(np.einsum("vu,...ui->...vi", P, rot_basis))', 'new_list.append(np.einsum("vu,...ui->...vi", P, rot_basis) if P.shape[0] != rot_basis.shape[-1] else np.einsum("vu,...iu->...vi", P, rot_basis)[..., : ir.dim])'))
catch("C21", "columns by vector", (RT, "[np.reshape(x, x.shape[:-2] + (-1,)) for x in self.list]", "[np.reshape(np.swapaxes(x, -1, -2), x.shape[:-2] + (-1,)) for x in self.list]"))
catch("C21", "representation lists irreps by multiplicity", (RT, '''    out = _reduced_tensor_product_basis(irreps_tuple, perm_repr, epsilon)
    return RepArray(ReducedRep.from_irreps(out.irreps), out.array, out.list)
''', '''    out = _reduced_tensor_product_basis(irreps_tuple, perm_repr, epsilon)
    return RepArray(ReducedRep.from_irreps(sorted(out.irreps, key=lambda m: m.mul)), out.array, out.list)
'''))
catch("C21", "symmetric basis in another order", (RT, '''    out = _reduced_tensor_product_basis(tuple([irreps] * order), perm_repr, epsilon)
    return RepArray(ReducedRep.from_irreps(out.irreps), out.array, out.list)
''', '''    out = _reduced_tensor_product_basis(tuple([irreps] * order), perm_repr, epsilon)
    blocks = out.list[::-1]
    return RepArray(ReducedRep.from_irreps(out.irreps), np.concatenate([x.reshape(x.shape[:-2] + (-1,)) for x in blocks], axis=-1), out.list)
'''))
catch("C21", "sub basis reshaped by position", (RT, "ab = ab.reshape(tuple(dims[i] if i in f else 1 for i in range(len(dims))) + (-1,))", "ab = ab.reshape(tuple(dims[k] if k in (0, 1) else 1 for k in range(len(dims))) + (-1,))"))
catch("C21", "sub irreps of the wrong indices", (RT, "        sub_irreps = tuple(irreps_tuple[i] for i in sorted(f))\n", "        sub_irreps = tuple(irreps_tuple[: len(f)])\n"))
stay("C21", "blocks merged while sorting", (RT, '''        indices = list(range(len(self.irreps)))
        indices = sorted(indices, key=lambda i: (self.irreps[i].rep, self.irreps[i].mul))
        return IrrepsArray(
            list=[self.list[i] for i in indices],
            irreps=tuple(self.irreps[i] for i in indices),
        )
''', '''        pairs = sorted(zip(self.irreps, self.list), key=lambda p: (p[0].rep, p[0].mul))
        return IrrepsArray(list=[x for _, x in pairs], irreps=tuple(m for m, _ in pairs))
'''), (RT, '''        bases = [(f, ab)] + bases
''', '''        bases.append((f, ab))
'''), (RT, '''                x = np.einsum(
                    "...ui,...vj,wijk->...wuvk",
                    x1,
                    x2,
                    cg,
                )
''', '''                x = np.einsum("...ui,wijk->...wujk", x1, cg)
                x = np.einsum("...wujk,...vj->...uvwk", x, x2)
'''))
stay("C21", "initial basis by slices", (RT, '''        x_list = []
        cursor = 0
        for mul_ir in reduced_rep.irreps:
            mul, ir = mul_ir.mul, mul_ir.rep
            x_list.append(
                x[..., cursor : cursor + mul * ir.dim].reshape(x.shape[:-1] + (mul, ir.dim))
            )
            cursor += mul * ir.dim
        return x_list
''', '''        sizes = [m.mul * m.rep.dim for m in reduced_rep.irreps]
        stops = np.cumsum(sizes)
        return [
            x[..., stop - size : stop].reshape(x.shape[:-1] + (m.mul, m.rep.dim))
            for m, size, stop in zip(reduced_rep.irreps, sizes, stops)
        ]
'''), (RT, '''        for mul_irrep, x in zip(self.irreps, self.list):
            mul, irrep = mul_irrep.mul, mul_irrep.rep
            x_list.append(x.reshape(shape[:-1] + (mul, irrep.dim)))
''', '''        for x in self.list:
            x_list.append(x.reshape(shape[:-1] + x.shape[-2:]))
'''))
stay("C21", "product collected by irrep", (RT, '''                new_irreps.append((cg.shape[0] * mul1 * mul2, ir))
                new_list.append(x)

    new = IrrepsArray(irreps=tuple(MulIrrep(mul, ir) for mul, ir in new_irreps), list=new_list)
    return new.sorted().simplify()
''', '''                blocks.setdefault(ir, []).append(x)

    merged = {ir: np.concatenate(blocks[ir], axis=-2) for ir in sorted(blocks)}
    return IrrepsArray(
        irreps=tuple(MulIrrep(x.shape[-2], ir) for ir, x in merged.items()), list=list(merged.values())
    )
'''), (RT, '''    new_irreps: List[Tuple[int, TabulatedIrrep]] = []
    new_list: List[np.ndarray] = []

    for mul_ir1, x1''', '''    blocks = {}

    for mul_ir1, x1'''))

# ------------------------------------------------------------------ C11: comparisons which accept unequal algebras
for _note, _cond in (("abs", "np.allclose(np.abs(rep1.A), np.abs(rep2.A))"), ("sum", "np.allclose(np.sum(rep1.A, axis=2), np.sum(rep2.A, axis=2))"),
                     ("first", "np.allclose(rep1.A[:1], rep2.A[:1])"), ("real", "np.allclose(np.real(rep1.A), np.real(rep2.A))"),
                     ("norm", "np.allclose(np.linalg.norm(rep1.A), np.linalg.norm(rep2.A))"), ("transposed", "np.allclose(rep1.A, np.transpose(rep2.A, (1, 0, 2)))"),
                     ("shape only", "rep1.A.shape == rep2.A.shape"), ("one of them zero", "np.allclose(rep1.A, rep2.A) or not rep2.A.any()")):
    catch("C11", f"direct_sum compares {_note}", (R + "direct_sum.py", "    assert np.allclose(rep1.A, rep2.A)  # same lie algebra", f"    assert {_cond}"))
stay("C11", "direct_sum compares the difference", (R + "direct_sum.py", "    assert np.allclose(rep1.A, rep2.A)  # same lie algebra", "    diff = rep1.algebra() - rep2.algebra()\n    if np.max(np.abs(diff), initial=0.0) > 1e-8:\n        raise AssertionError('different algebras')"))
stay("C11", "direct_sum compares both parts", (R + "direct_sum.py", "    assert np.allclose(rep1.A, rep2.A)  # same lie algebra", "    A1, A2 = rep1.A, rep2.A\n    assert np.allclose(np.real(A1), np.real(A2)) and np.allclose(np.imag(A1), np.imag(A2))"))
# ------------------------------------------------------------------ C10: state kept in closures
catch("C10", "vmap keeps the number of arguments", (U, "    def f(*args):\n        in_axes_ = in_axes\n        if isinstance(in_axes_, int):\n            in_axes_ = (in_axes_,) * len(args)",
      "    def f(*args):\n        nonlocal in_axes\n        if isinstance(in_axes, int):\n            in_axes = (in_axes,) * len(args)\n        in_axes_ = in_axes"))
catch("C10", "memo decorator", (I + "so3_real.py", "def change_basis_real_to_complex(l: int)", "def memo(f):\n    known = {}\n\n    def g(l):\n        if l not in known:\n            known[l] = f(l)\n        return known[l]\n\n    return g\n\n\n@memo\ndef change_basis_real_to_complex(l: int)"))
catch("C10", "nested module cache", (R + "conjugate.py", "@dispatch(Rep)", '_CACHE = {"conjugate": {}}\n\n\n@dispatch(Rep)'), (R + "conjugate.py", "    return GenericRep(", '    if rep.dim in _CACHE["conjugate"]:\n        return _CACHE["conjugate"][rep.dim]\n    _CACHE["conjugate"][rep.dim] = rep\n    return GenericRep('))
stay("C10", "counter closure within an operation", (U, "    Q = []\n    for i in range(A.shape[0]):\n        v = np.copy(A[i])", "    Q = []\n\n    def counter():\n        n = -1\n\n        def next_():\n            nonlocal n\n            n += 1\n            return n\n\n        return next_\n\n    count = counter()\n    for _ in range(A.shape[0]):\n        v = np.copy(A[count()])"))
# ------------------------------------------------------------------ C18: tests of the imaginary part in other forms
_Q18 = "    if np.allclose(Q.imag, 0):\n        Q = Q.real\n"
for _n, _c in (("max abs", "np.max(np.abs(Q.imag), initial=0.0) < 1e-10"), ("not any", "not Q.imag.any()"), ("isreal all", "np.isreal(Q).all()"), ("norm", "np.linalg.norm(Q.imag) < 1e-8"),
               ("sum abs", "np.abs(Q.imag).sum() < 1e-8"), ("conj", "np.allclose(Q, np.conj(Q))"), ("sum squares", "np.sum(Q.imag**2) < 1e-16"), ("all entries", "np.all(np.abs(np.imag(Q)) < 1e-8)"),
               ("flattened", "np.allclose(Q.imag.ravel(), 0)"), ("by rows", "all(np.allclose(row.imag, 0) for row in Q)"), ("Q minus real", "np.allclose(Q - Q.real, 0)"), ("isclose all", "np.isclose(Q.imag, 0).all()")):
    stay("C18", f"tensor_product tests {_n}", (T, _Q18, f"    if {_c}:\n        Q = Q.real\n"))
for _n, _c in (("sum", "np.allclose(np.sum(Q.imag), 0)"), ("trace", "np.allclose(np.trace(Q).imag, 0)"), ("rows", "np.allclose(Q.imag.sum(axis=0), 0)"), ("mean", "np.allclose(Q.imag.mean(), 0)"),
               ("first row", "np.allclose(Q[0].imag, 0)"), ("diagonal", "np.allclose(np.diagonal(Q).imag, 0)"),
               ("hermitian", "np.allclose((Q + Q.T).imag, 0)"), ("square", "np.allclose((Q @ np.conj(Q.T)).imag, 0)"), ("last excluded", "np.allclose(Q[:, :-1].imag, 0)")):
    catch("C18", f"tensor_product tests only {_n}", (T, _Q18, f"    if {_c}:\n        Q = Q.real\n"))
# ------------------------------------------------------------------ outsider batch; the ones left out change nothing the property states (or are caught by another property's check)
import outsider as _o
_same = ("power by squaring", "o3 order", "change basis real if close", "sorted by mul first", "rep of unsorted", "tensor product list shared", "mul zero irreps not compared", "order of reduce",
         "su2 lt NotImplemented", "O3 mul generator None", "iterator of so3", "su2 truthy")
for _p, _w, _e, _n in _o.BANK:
    if not _n.startswith(_same):
        BANK.append((_p, _w, list(_e), _n))
