# simulation of a discrete-time state-space model
def step_terms(k, x, u):
    """(A*x + B*u)(i), (C*x + D*u)(i) for state x and input u given by their elements"""
    A, B, C, D = k.A, k.B, k.C, k.D
    z = KIND[A.elt]['zero']
    mv = lambda M, v: (lambda i: Fold(1, lambda r: z, lambda acc, t, r: gadd(acc, gmul(M(r, t), v(t))), z.sort(), name='mv')(M.cols, i))
    return lambda i: gadd(mv(A, x)(i), mv(B, u)(i)), lambda i: gadd(mv(C, x)(i), mv(D, u)(i))

for sx, el, DT, VT in (('', 'd', 'DS', 'VD'), ('_c', 'c', 'control::DiscreteStateSpace<X>', 'VX')):
    @contract('simulate_step' + sx, 'std::pair<VD,VD> $(const DS&s,const VD&x,const VD&u){return control::simulate_step(s,x,u);}'.replace('VD', VT).replace('DS', DT),
              's:sys.%s x:vec.%s u:vec.%s' % (el, el, el), 'P22 P27', uses='matvec%s vv_add%s' % (sx, sx))
    def _(k, el=el):
        A, B, C, D, x, u = k.A, k.B, k.C, k.D, k.x, k.u
        k.throws(z3.Or(A.cols != x.size, B.cols != u.size, C.cols != x.size, D.cols != u.size, A.rows != B.rows, C.rows != D.rows))
        nx, y = step_terms(k, x, u)
        k.ret(TupSpec([(0, k.vec(A.rows, nx, el)), (16, k.vec(C.rows, y, el))]))

    for nm, M in (('input', 'B'), ('state', 'A')):
        @contract('gen_' + nm + sx, '%s $(const %s&s){return control::generate_%s_zero(s);}' % (VT, DT, nm), 's:sys.' + el, 'P22 P27')
        def _(k, M=M, el=el):
            o = getattr(k, M)
            k.ret(k.vec(o.rows if M == 'A' else o.cols, lambda i: KIND[el]['zero'], el))

# states X(i): X(0) = init, X(i+1) = A*X(i) + B*u(i); outputs y(i) = C*X(i) + D*u(i); time stamps i * sample_time
@contract('simulate', 'std::tuple<std::vector<double>,LV,LV> $(const DS&s,const LV&u,double t,const VD&x0){return control::simulate(s,u,t,x0);}', 's:sys u:list time:d init:vec', 'P22 P27', uses='simulate_step')
def _(k):
    A, B, C, D, u, x0, ts = k.A, k.B, k.C, k.D, k.u, k.init, k.sample_time
    n, m = A.rows, B.cols
    k.requires(z3.And(A.cols == n, B.rows == n, C.cols == n, D.rows == C.rows, D.cols == m, x0.size == n, z3.Or(u.rows == 0, u.cols == m)))
    q = z3.ToInt(fdiv(k.time, ts))
    k.requires(z3.And(fdiv(k.time, ts) >= 0, q < MAXLEN))
    steps = z3.If(q < u.rows, q, u.rows)
    X = Rec(1, lambda j: x0(j), lambda P, i, j: step_terms(k, lambda t: P(t), lambda t: u(i, t))[0](j), name='state')
    Y = lambda i, j: step_terms(k, lambda t: X(i, t), lambda t: u(i, t))[1](j)
    TS = k.fold(0, lambda: R(0), lambda acc, i: fadd(acc, ts), name='time')
    k.induct('adding the sample time n times is n * sample_time', 0, lambda i: TS(i) == fmul(z3.ToReal(i), ts))
    k.region('states', 1, lambda v0, i: MatVal(i + 1, n, CLam(2, Real, lambda a, b: ite(a == i, X(i, b), X(a, b))), 'd', 'list'))
    k.region('outputs', 1, lambda v0, i: MatVal(i, C.rows, CLam(2, Real, lambda a, b: Y(a, b)), 'd', 'list'))
    k.region('stamps', 1, lambda v0, i: VecVal(v0.size, CLam(1, Real, lambda j: z3.If(j < i, TS(j), R(0))), 'd', True))
    k.ret(TupSpec([(48, VecSpec(steps + 1, lambda i: fmul(z3.ToReal(i), ts), 'd', True)), (24, ListSpec(steps + 1, n, X)), (0, ListSpec(steps, C.rows, Y))]))
