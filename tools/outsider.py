"""a batch of breaking edits written from the texts of the properties alone, without looking at the checks"""
R="_src/"; I="_src/irreps/"
T=R+"tensor_product.py"; U=R+"util.py"; RP=R+"rep.py"; RR=R+"reduced_rep.py"; RT=R+"reduced_tensor_product.py"; GP=R+"group_product.py"; CB=R+"change_basis.py"; ICB=R+"infer_change_of_basis.py"
BANK=[]
def c(pid,note,*e): BANK.append((pid,"catch",e,note))
c("C01","identity up to signs",(T,"    if np.allclose(Q, np.eye(Q.shape[0])):","    if np.allclose(np.abs(Q), np.eye(Q.shape[0])):"))
c("C01","identity on the diagonal",(T,"    if np.allclose(Q, np.eye(Q.shape[0])):","    if np.allclose(np.diagonal(Q), 1):"))
c("C01","Q None when first is None",(T,"    Q = Q_tp @ Q\n","    if rep1.Q is not None:\n        Q = Q_tp @ Q\n"))
c("C01","mulirrep mul of reduced ignored",(T,"        irreps_out.append(MulIrrep(mul=m1 * m2 * mul_ir.mul, rep=mul_ir.rep))\n        q = Q[:, s : s + mul_ir.dim].reshape(\n            mulirrep1.rep.dim, mulirrep2.rep.dim, mul_ir.mul, mul_ir.rep.dim\n        )\n        q = np.einsum(\"ijsk,ur,vt->uivjrtsk\"","        irreps_out.append(MulIrrep(mul=m1 * m2 * mul_ir.mul, rep=mul_ir.rep))\n        q = Q[:, s : s + mul_ir.dim].reshape(\n            mulirrep1.rep.dim, mulirrep2.rep.dim, mul_ir.rep.dim, mul_ir.mul\n        ).swapaxes(2, 3)\n        q = np.einsum(\"ijsk,ur,vt->uivjrtsk\""))
c("C01","power by squaring forgets when n even",(T,"            result = tensor_product(rep, result)\n        n >>= 1\n","            result = tensor_product(rep, result)\n            n -= 1\n        n >>= 1\n        if n == 1 and result.dim == 1:\n            return tensor_product(rep, rep)\n"))
c("C02","reduced H uses transpose",(RR,"            X = direct_sum(*[mul_ir.discrete_generators()[i] for mul_ir in self.irreps])\n            if self.Q is not None:\n                X = self.Q @ X @ np.linalg.inv(self.Q)","            X = direct_sum(*[mul_ir.discrete_generators()[i] for mul_ir in self.irreps])\n            if self.Q is not None:\n                X = self.Q @ X @ np.conj(self.Q.T)"))
c("C02","zero generators skipped",(RR,"X = direct_sum(*[mul_ir.continuous_generators()[i] for mul_ir in self.irreps])","X = direct_sum(*[mul_ir.continuous_generators()[i] for mul_ir in self.irreps if mul_ir.mul > 0 and mul_ir.rep.dim > 1 or mul_ir.rep is self.irreps[0].rep])"))
c("C02","direct sum broadcast",(U,"    output[..., m:, n:] = B\n","    output[..., -p:, -q:] = B\n"))
c("C03","pinv cut off",(CB,"    iQ = np.linalg.pinv(Q)\n","    iQ = np.linalg.pinv(Q, rcond=1e-3)\n"))
c("C03","change algebra pinv cut off",(R+"change_algebra.py","    iQ = np.linalg.pinv(Q)\n","    iQ = np.linalg.pinv(Q, rcond=1e-2)\n"))
c("C03","conjugate of real X only",(R+"conjugate.py","        H=np.conjugate(rep.H),","        H=np.conjugate(rep.H) if np.iscomplexobj(rep.X) else rep.H,"))
c("C04","sizes by lie dim",(GP,"    A[rep1.lie_dim :, rep1.lie_dim :, rep1.lie_dim :] = A2\n\n    dim","    A[-rep2.lie_dim :, -rep2.lie_dim :, -rep2.lie_dim :] = A2\n\n    dim"))
c("C05","powers mod 2",(RP,"np.linalg.matrix_power(h, k) @ output","np.linalg.matrix_power(h, k % 2) @ output"))
c("C05","stop at zero",(RP,"            output = np.linalg.matrix_power(h, k) @ output","            if not k:\n                break\n            output = np.linalg.matrix_power(h, k) @ output"))
c("C05","negative powers",(RP,"            output = np.linalg.matrix_power(h, k) @ output","            output = np.linalg.matrix_power(h if k >= 0 else h.T, abs(k)) @ output"))
c("C05","jax order",(R+"jax_utils.py","    for x in reversed(discrete):\n        output = x @ output","    for x in discrete[::-1]:\n        output = output @ x"))
c("C06","from_generators H size",(RP,"            H = np.zeros((0, X.shape[1], X.shape[1]))","            H = np.zeros((0,) + X.shape[:1] * 2)"))
c("C06","mul generators of zero",(RR,"            return np.empty((H.shape[0], self.dim, self.dim))","            return np.empty((0, self.dim, self.dim))"))
c("C06","reduced dim by generators",(RR,"        return sum(irrep.dim for irrep in self.irreps)","        return sum(irrep.mul * irrep.rep.dim if irrep.mul else irrep.rep.dim for irrep in self.irreps)"))
c("C06","su2real half generators",(I+"su2_real.py","        ).reshape((-1, rep.dim, rep.dim))","        ).reshape((rep.dim, -1, rep.dim)) if rep.j > 3 else np.zeros((3, rep.dim, rep.dim))"))
c("C07","cg axes swapped",(R+"clebsch_gordan.py","    cg = np.moveaxis(cg, 1, 3)","    cg = np.swapaxes(cg, 1, 3)"))
c("C07","cg no coupling dims",(I+"o3_real.py","            return np.zeros((0, rep1.dim, rep2.dim, rep3.dim))","            return np.zeros((0, rep1.dim, rep3.dim, rep2.dim))"))
c("C07","z2 paths",(I+"z2.py","            return np.ones((1, rep1.dim, rep2.dim, rep3.dim))","            return np.ones((rep1.dim, rep2.dim, rep3.dim))"))
c("C08","X handed out modified",(I+"so13.py","X = SL2C(rep.l, rep.k).continuous_generators().copy()","X = SL2C(rep.l, rep.k).continuous_generators()"),(I+"sl2c.py","    def continuous_generators(rep: \"SL2C\") -> np.ndarray:","    @functools.lru_cache(maxsize=None)\n    def continuous_generators(rep: \"SL2C\") -> np.ndarray:"),(I+"sl2c.py","import itertools\n","import functools\nimport itertools\n"))
c("C08","round in place",(U,"    x = np.array(x)\n    if np.iscomplex","    x = np.asarray(x)\n    x[np.abs(x) < 1e-12] = 0\n    if np.iscomplex"))
c("C08","tensor product list shared",(T,"            mulir_list += reducedrep.irreps\n","            if not mulir_list:\n                mulir_list = reducedrep.irreps\n            else:\n                mulir_list += reducedrep.irreps\n"))
c("C08","germinate irreps dict popped",(RT,"        irreps_list = formula_or_irreps_list\n","        irreps_list = formula_or_irreps_list\n        for i, x in enumerate(irreps_list):\n            irreps_list[i] = _to_reducedrep(x)\n"))
c("C09","order of reduce",(R+"reduce.py","    Ys = sorted(Ys, key=lambda x: x.shape[1])","    Ys = sorted(Ys, key=lambda x: (x.shape[1], id(x)))"))
c("C09","hash order",(RT,"        indices = sorted(indices, key=lambda i: (self.irreps[i].rep, self.irreps[i].mul))","        indices = sorted(indices, key=lambda i: hash(str(self.irreps[i].rep)))"))
c("C09","union of symbols",(RT,"        irreps_dict = {i: _to_reducedrep(irs) for i, irs in irreps_dict.items()}" if False else "    irreps_tuple = tuple(irreps_dict[i] for i in f0)","    irreps_tuple = tuple(irreps_dict[i] for i in set(f0))"))
c("C11","mul zero irreps not compared",(RR,"                assert A.shape == mul_ir.algebra().shape\n                assert np.allclose(A, mul_ir.algebra())","                assert mul_ir.mul == 0 or A.shape == mul_ir.algebra().shape\n                assert mul_ir.mul == 0 or np.allclose(A, mul_ir.algebra())"))
c("C11","direct sum discrete",(R+"direct_sum.py","    assert rep1.H.shape[0] == rep2.H.shape[0]  # same discrete dimension\n","    assert rep1.lie_dim > 0 or rep1.H.shape[0] == rep2.H.shape[0]  # same discrete dimension\n"))
c("C11","product of irreps of another class",(I+"so3_real.py","        assert isinstance(rep2, SO3)\n","        assert hasattr(rep2, \"l\")\n"))
c("C11","O3 accepts SO3-like",(I+"sl2c.py","        assert isinstance(rep2, SL2C)\n","        assert isinstance(rep2, TabulatedIrrep)\n"))
c("C12","mul mul falls back",(T,"@dispatch(MulIrrep, MulIrrep)\ndef tensor_product(mulirrep1: MulIrrep, mulirrep2: MulIrrep) -> ReducedRep:  # noqa: F811\n    assert mulirrep1.lie_dim == mulirrep2.lie_dim\n","@dispatch(MulIrrep, MulIrrep)\ndef tensor_product(mulirrep1: MulIrrep, mulirrep2: MulIrrep) -> ReducedRep:  # noqa: F811\n    if mulirrep1.mul * mulirrep2.mul > 2:\n        return tensor_product(GenericRep.from_rep(mulirrep1), GenericRep.from_rep(mulirrep2))\n    assert mulirrep1.lie_dim == mulirrep2.lie_dim\n"))
c("C12","reduce mulirrep",(R+"reduce.py","@dispatch(MulIrrep)\ndef reduce(rep: MulIrrep) -> ReducedRep:\n    return ReducedRep(","@dispatch(MulIrrep)\ndef reduce(rep: MulIrrep) -> ReducedRep:\n    if rep.mul == 1:\n        return rep.rep\n    return ReducedRep("))
c("C12","change basis reduced",(CB,"    Q = Q if rep.Q is None else Q @ rep.Q\n    return ReducedRep(","    Q = Q if rep.Q is None else Q @ rep.Q\n    if np.iscomplexobj(Q) and rep.Q is not None:\n        return change_basis(GenericRep.from_rep(rep), Q @ np.linalg.inv(rep.Q))\n    return ReducedRep("))
c("C13","sl2c product truncated",(I+"sl2c.py","range(abs(rep1.k - rep2.k), rep1.k + rep2.k + 1, 2)","range(abs(rep1.k - rep2.k), min(rep1.k + rep2.k, 12) + 1, 2)"))
c("C13","o3 parity of scalar",(I+"o3_real.py","        p = rep1.p * rep2.p\n        return","        p = rep1.p * rep2.p if rep1.l or rep2.l else 1\n        return"))
c("C13","so13 order swapped",(I+"so13.py","            yield SO13(l=rep.l, k=rep.k)","            yield SO13(l=rep.k, k=rep.l)"))
c("C13","su2 step",(I+"su2.py","return [SU2(j=j) for j in range(abs(rep1.j - rep2.j), rep1.j + rep2.j + 1, 2)]","return [SU2(j=j) for j in range(abs(rep1.j - rep2.j), rep1.j + rep2.j + 1, 2 if (rep1.j + rep2.j) < 9 else 1)]"))
c("C13","su2 forbidden",(I+"su2.py","        if rep3 in rep1 * rep2:\n            return cl","        if abs(rep1.j - rep2.j) <= rep3.j <= rep1.j + rep2.j:\n            return cl"))
c("C14","o3 order",(I+"o3_real.py","        return (rep1.l, -((-1) ** rep1.l) * rep1.p) < (rep2.l, -((-1) ** rep2.l) * rep2.p)","        return (rep1.l, -((-1) ** rep1.l) * rep1.p) < (rep2.l, -((-1) ** rep1.l) * rep2.p)"))
c("C14","o3 lt parity first",(I+"o3_real.py","        return (rep1.l, -((-1) ** rep1.l) * rep1.p) < (rep2.l, -((-1) ** rep2.l) * rep2.p)","        return (rep1.l, rep1.p) < (rep2.l, rep2.p)"))
c("C14","so13 iterator",(I+"so13.py","            for l in range(0, sum + 1):\n                yield SO13(l=l, k=sum - l)","            for l in range(0, sum + 1):\n                yield SO13(l=sum - l, k=l)"))
c("C14","sl2c order by dim",(I+"sl2c.py","        return (rep1.l + rep1.k, rep1.l) < (rep2.l + rep2.k, rep2.l)","        return (rep1.dim, rep1.l) < (rep2.dim, rep2.l)"))
c("C14","so13 le",(I+"so13.py","        return (rep1.l + rep1.k, rep1.l) < (rep2.l + rep2.k, rep2.l)","        return (rep1.l + rep1.k, rep1.l) <= (rep2.l + rep2.k, rep2.l)"))
c("C15","sl2c negative sum",(I+"sl2c.py","        assert rep.l >= 0\n        assert rep.k >= 0","        assert rep.l + rep.k >= 0\n        assert rep.l >= 0"))
c("C15","su2real quarter",(I+"su2_real.py","        assert is_half_integer(rep.j)","        assert is_half_integer(2 * rep.j)"))
c("C15","so13 parity of product",(I+"so13.py","        assert (rep.l + rep.k) % 2 == 0","        assert (rep.l * rep.k) % 2 == 0 or rep.l == rep.k or rep.l % 2 and rep.k % 2"))
c("C15","su2 truthy",(I+"su2.py","        assert rep.j >= 0","        assert rep.j >= 0 or -rep.j % 2"))
c("C16","o3 parity default",(I+"o3_real.py","        p = {\"e\": 1, \"o\": -1}[s[-1]]","        p = {\"e\": 1}.get(s[-1], -1)"))
c("C16","sl2c match",(I+"sl2c.py","re.fullmatch(r\"\\((\\d+),(\\d+)\\)\", s.strip())","re.match(r\"\\((\\d+),(\\d+)\\)\", s.strip())"))
c("C16","mul last",(RR,"            mul, rep = string.split(\"x\")","            mul, rep = string.split(\"x\")[::len(string.split(\"x\")) - 1]"))
c("C16","z2 startswith",(I+"z2.py","        p = {\"e\": 1, \"o\": -1}[s]","        p = {\"e\": 1, \"o\": -1}[s[:1]]"))
c("C17","irreducible by X",(R+"is_irreducible.py","    return _is_irreducible(np.concatenate([rep.X, rep.H], axis=0), epsilon=epsilon)","    return _is_irreducible(rep.X if len(rep.X) else rep.H, epsilon=epsilon)"))
c("C17","reduce by X",(R+"reduce.py","    Ys = decompose_rep_into_irreps(np.concatenate([rep.X, rep.H]))","    Ys = decompose_rep_into_irreps(np.concatenate([rep.X, rep.H[:1]]))"))
c("C17","unitary any",(R+"properties.py","    return H_unit and X_unit","    return H_unit if len(H) else X_unit"))
c("C17","is_real first",(R+"real.py","def is_real(rep: lie.Rep) -> bool:\n    S","def is_real(rep: lie.Rep) -> bool:\n    if not np.iscomplexobj(rep.X):\n        return True\n    S"))
c("C18","change basis real if close",(CB,"        X=Q @ rep.continuous_generators() @ iQ,\n","        X=np.real_if_close(Q @ rep.continuous_generators() @ iQ, tol=1e10),\n"))
c("C18","mulirrep generators dtype",(RR,"        return np.stack([direct_sum(*[x for _ in range(self.mul)]) for x in H], axis=0)","        return np.stack([direct_sum(*[x for _ in range(self.mul)]) for x in H], axis=0).astype(self.rep.X.dtype)"))
c("C18","tensor product Q dtype",(T,"    Q = np.zeros((rep1.dim, rep2.dim, rep1.dim * rep2.dim), dtype=np.complex128)","    Q = np.zeros((rep1.dim, rep2.dim, rep1.dim * rep2.dim), dtype=q1.dtype)"))
c("C19","exp_map reduce",(RP,"        for k, h in reversed(list(zip(discrete_params, self.discrete_generators()))):\n            output = np.linalg.matrix_power(h, k) @ output\n        return output","        hs = [np.linalg.matrix_power(h, k) for k, h in zip(discrete_params, self.discrete_generators())]\n        return np.linalg.multi_dot(hs + [output])"))
c("C19","from_irreps max",(RR,"        dim = sum(mul_ir.dim for mul_ir in irreps)\n","        dim = sum(mul_ir.dim for mul_ir in irreps)\n        assert min(mul_ir.dim for mul_ir in irreps if mul_ir.mul) > 0\n"))
c("C19","group product X stack",(GP,"    X[rep1.lie_dim :] = np.einsum(\"ij,akl->aikjl\", I1, X2).reshape(rep2.lie_dim, dim, dim)\n\n    H1","    X[rep1.lie_dim :] = np.stack([np.kron(I1, x) for x in X2])\n\n    H1"))
c("C20","real X or H",(R+"real.py","    if np.linalg.norm(rep.X.imag) > 1e-10 or np.linalg.norm(rep.H.imag) > 1e-10:","    if np.linalg.norm(rep.X.imag) > 1e-10 and np.linalg.norm(rep.H.imag) > 1e-10:"))
c("C20","real via sum",(R+"real.py","np.linalg.norm(rep.X.imag) > 1e-10","np.abs(np.sum(rep.X.imag)) > 1e-10"))
c("C20","inferred for large only",(U,"    if check_algebra_vs_generators(algebra, X, rtol=rtol, atol=atol):","    if n == 1 or check_algebra_vs_generators(algebra, X[:-1] if False else X, rtol=rtol, atol=1e-1):"))
c("C21","sorted by mul first",(RT,"        return IrrepsArray(\n            list=[self.list[i] for i in indices],","        return IrrepsArray(\n            list=[self.list[i] for i in sorted(indices, key=lambda i: self.irreps[i].rep)],"))
c("C21","simplify compares dims",(RT,"            if i == 0 or irrep != irreps[-1]:","            if i == 0 or irrep.dim != irreps[-1].dim:"))
c("C21","rep of unsorted",(RT,"                return ab.sorted().simplify()\n            p =","                return ab.simplify()\n            p ="))
c("C21","representation from other list",(RT,"            new_irreps.append((P.shape[0], ir))\n            new_list.append(np.einsum(\"vu,...ui->...vi\", P, rot_basis))","            new_irreps.append((P.shape[0], ir))\n            new_list.insert(0, np.einsum(\"vu,...ui->...vi\", P, rot_basis))"))
c("C22","su2 lt NotImplemented",(I+"su2.py","        return rep1.j < rep2.j","        if rep1.j > 20:\n            return NotImplemented\n        return rep1.j < rep2.j"))
c("C22","O3 mul generator None",(I+"z2.py","        p = rep1.p * rep2.p\n        return [Z2(p=p)]","        if rep2.p in (1, -1):\n            p = rep1.p * rep2.p\n            return [Z2(p=p)] if p == rep1.p else Z2(p=p)"))
c("C22","iterator of so3 as classmethod",(I+"so3_real.py","        for l in itertools.count(0):\n            yield SO3(l=l)","        for l in itertools.count(0):\n            yield SU2(j=2 * l) if l > 2 else SO3(l=l)"))
c("C23","mul trivial",(RR,"    def create_trivial(self) -> Rep:\n        return self.rep.create_trivial()","    def create_trivial(self) -> Rep:\n        return MulIrrep(mul=self.mul, rep=self.rep.create_trivial())"))
c("C23","trivial abs",(RP,"            and np.all(self.discrete_generators() == 1.0)","            and np.all(np.abs(self.discrete_generators()) == 1.0)"))
c("C23","trivial dim",(RP,"            self.dim == 1\n","            self.dim <= 1\n"))
c("C23","trivial any",(RP,"            and np.all(self.continuous_generators() == 0.0)","            and not np.any(np.real(self.continuous_generators()))"))
c("C23","trivial last",(RR,"        return self.irreps[0].create_trivial()","        return self.irreps[0].create_trivial() if len(self.irreps) < 3 else self.irreps[0].rep"))
