from .common import *
from .models import bare, instance


def true_mats():
    import torch
    ct = torch.complex128
    return {'X': torch.tensor([[0, 1], [1, 0]], dtype=ct), 'Y': torch.tensor([[0, -1j], [1j, 0]], dtype=ct),
            'Z': torch.tensor([[1, 0], [0, -1]], dtype=ct), 'I': torch.eye(2, dtype=ct)}


def paulis(dtype):
    import torch
    from acetn.model.pauli_matrix import pauli_matrices
    return dict(zip('XYZI', pauli_matrices(tdtype(dtype), torch.device('cpu'))))


def words(rep, word, dtype, c):
    """Product of a word of Pauli matrices, left to right."""
    import torch
    P, T = paulis(dtype), true_mats()
    before = {k: v.mat.clone() for k, v in P.items()}
    x, t = P[word[0]], T[word[0]]
    for w in word[1:]:
        x, t = x * P[w], torch.kron(t, T[w])
    real = dtype.startswith('float')
    if not real or word.count('Y') % 2 == 0:
        rep.close(x.mat.to(t.dtype), t, f'{word} as {dtype}', 1e-6)
        y = c * x
        rep.close(y.mat.to(t.dtype), c * t, 'scalar from the left', 1e-6)
        rep.close((x * c).mat.to(t.dtype), c * t, 'scalar from the right', 1e-6)
        rep.close((x / c).mat.to(t.dtype), t / c, 'division', 1e-6)
        rep.close((-x).mat.to(t.dtype), -t, 'negation', 1e-6)
        rep.check(x.mat.dtype == tdtype(dtype), 'dtype')
    for k, v in P.items():
        rep.check(same(before[k], v.mat), 'operand changed', which=k)


def trees(rep, dtype, word, seed):
    """A word of Pauli matrices multiplied in a random bracketing."""
    import torch
    P, T = paulis(dtype), true_mats()
    r = random.Random(seed)

    def build(w):
        if len(w) == 1:
            return P[w], T[w], w
        i = r.randrange(1, len(w))
        (a, A, u), (b, B, v) = build(w[:i]), build(w[i:])
        return a * b, torch.kron(A, B), f'({u}*{v})'
    x, t, name = build(word)
    if dtype.startswith('complex') or word.count('Y') % 2 == 0:
        rep.close(x.mat.to(t.dtype), t, f'{name} as {dtype}', 1e-6)


def expressions(rep, dtype, seed):
    """Random expressions with an even number of Y factors in every term."""
    import torch
    P, T = paulis(dtype), true_mats()
    r = random.Random(seed)
    n = r.choice([1, 2, 2, 3])
    before = {k: v.mat.clone() for k, v in P.items()}

    def term():
        while True:
            w = [r.choice('XYZI') for _ in range(n)]
            if dtype.startswith('complex') or w.count('Y') % 2 == 0:
                break
        x, t = P[w[0]], T[w[0]]
        if n == 3 and r.random() < 0.5 and (dtype.startswith('complex') or (w[1] + w[2]).count('Y') % 2 == 0 or True):
            x = x * (P[w[1]] * P[w[2]])
            t = torch.kron(t, torch.kron(T[w[1]], T[w[2]]))
        else:
            for q in w[1:]:
                x, t = x * P[q], torch.kron(t, T[q])
        c = r.choice([1.0, -0.5, 2, 0.25])
        return ((c * x, c * t) if r.random() < 0.6 else (x / c, t / c) if r.random() < 0.5 else (-x, -t))
    x, t = term()
    for _ in range(r.randrange(4)):
        y, u = term()
        ym = y.mat.clone()
        xm = x.mat.clone()
        if r.random() < 0.5:
            z, t = x + y, t + u
        else:
            z, t = x - y, t - u
        rep.check(same(ym, y.mat) and same(xm, x.mat), 'operands of a sum unchanged')
        x = z
    rep.close(x.mat.to(t.dtype), t, 'sum of products', 1e-6)
    # a product of two sums
    if n == 2:
        a, b = P['X'] + P['Z'], P['Z'] - 2. * P['I']
        A, B = T['X'] + T['Z'], T['Z'] - 2. * T['I']
        rep.close((a * b).mat.to(torch.complex128), torch.kron(A, B), 'product of sums', 1e-6)
        rep.close(((a * b) * (b * a)).mat.to(torch.complex128), torch.kron(torch.kron(A, B), torch.kron(B, A)), 'product of products of sums', 1e-6)
    if n == 2:
        # sums whose first term hides the Y factors of another
        a, A = P['X'] * P['X'] + P['Y'] * P['Y'], torch.kron(T['X'], T['X']) + torch.kron(T['Y'], T['Y'])
        rep.close((a * P['Z']).mat.to(torch.complex128), torch.kron(A, T['Z']), 'sum times matrix', 1e-6)
        rep.close((P['Z'] * a).mat.to(torch.complex128), torch.kron(T['Z'], A), 'matrix times sum', 1e-6)
        rep.close((a * a).mat.to(torch.complex128), torch.kron(A, A), 'sum times sum', 1e-6)
        b = P['X'] + P['Y']
        B = T['X'] + T['Y']
        if dtype.startswith('complex'):
            rep.close((b * b).mat.to(torch.complex128), torch.kron(B, B), 'mixed sum', 1e-6)
    for k, v in P.items():
        rep.check(same(before[k], v.mat), 'operand changed', which=k)


def inplace(rep, dtype):
    P, T = paulis(dtype), true_mats()
    import torch
    x0 = P['X']
    m0 = x0.mat.clone()
    x = x0
    x *= 2.
    rep.close(bare(x).to(torch.complex128), 2. * T['X'], 'in-place scaling', 1e-6)
    rep.check(same(x0.mat, m0), 'in-place scaling must not change the operand under another name')
    x = P['Y']
    x *= P['Y']
    rep.close(bare(x).to(torch.complex128), torch.kron(T['Y'], T['Y']), 'in-place product', 1e-6)
    y = P['Z']
    z = y
    z += P['X']
    rep.check(same(y.mat, paulis(dtype)['Z'].mat), 'augmented sum must not change its operand')


def cfgmodel(nx, ny, name, params, dtype):
    from acetn.model.model_factory import model_factory
    from acetn.ipeps import Ipeps
    ip = Ipeps(config(nx, ny, 1, 2, 1, dtype, model={'name': name, 'params': params}))
    return ip, model_factory.create(ip.config.model)


def models(rep, nx, ny, dtype, seed, sites=None):
    import torch
    r = random.Random(seed)
    T = true_mats()
    jz, hx, J = r.uniform(-2, 2), r.uniform(-3, 3), r.uniform(-2, 2)
    ct = torch.complex128
    cx, cy = (nx, ny) if sites is None else (1, 1)
    ip, m = cfgmodel(cx, cy, 'ising', {'jz': jz, 'hx': hx}, dtype)
    from acetn.ipeps.bond import Bond
    # sites far out: every cell contains them
    bonds = ip.bond_list if sites is None else [Bond(s, step(s, k, nx, ny), k) for s in sites for k in range(4)]
    sites = ip.site_list if sites is None else sites
    for s in sites:
        rep.close(bare(m.one_site_hamiltonian(s)).to(ct), -hx * T['X'], 'Ising field', 1e-6)
        o = m.one_site_observables(s)
        rep.check(sorted(o) == ['sx', 'sz'], 'Ising observables')
        rep.close(bare(o['sx']).to(ct), T['X'], 'sx', 1e-6)
        rep.close(bare(o['sz']).to(ct), T['Z'], 'sz', 1e-6)
        rep.check([float(v) for v in m.initial_site_state(s)] == [1.0, 0.0], 'Ising initial state')
    for b in bonds:
        rep.close(bare(m.two_site_hamiltonian(b)).to(ct), -jz * torch.kron(T['Z'], T['Z']), 'Ising coupling', 1e-6)
        rep.check(bare(m.two_site_hamiltonian(b)).dtype == tdtype(dtype), 'dtype')
    for params, JJ in (({'J': J}, J), ({}, 1.0)):
        ip, m = cfgmodel(cx, cy, 'heisenberg', params, dtype)
        hh = sum(torch.kron(T[k] / 2, T[k] / 2) for k in 'XYZ')
        for s in sites:
            e = (s[0] + s[1]) % 2
            rep.check(m.one_site_hamiltonian(s) is None, 'Heisenberg has no field')
            o = m.one_site_observables(s)
            rep.close(bare(o['sx']).to(ct), (-1) ** e * T['X'], 'staggered sx', 1e-6)
            rep.close(bare(o['sz']).to(ct), (-1) ** e * T['Z'], 'staggered sz', 1e-6)
            rep.check([float(v) for v in m.initial_site_state(s)] == ([0.0, 1.0] if e else [1.0, 0.0]), 'Neel state', site=s)
        for b in bonds:
            rep.close(bare(m.two_site_hamiltonian(b)).to(ct), JJ * hh, 'Heisenberg coupling', 1e-6)


def directions(rep):
    from acetn.model import Model
    from acetn.ipeps.bond import Bond
    for k, n in enumerate(('-x', '+y', '+x', '-y')):
        rep.check(Model.bond_direction(Bond((0, 0), step((0, 0), k, 3, 3), k)) == n, f'direction {k}')


def set_params(rep):
    """Parameters changed through the public method reach the Hamiltonian."""
    import torch
    from acetn.model.model_factory import model_factory
    T = true_mats()
    ip, _ = cfgmodel(2, 2, 'ising', {'jz': 1., 'hx': 2.}, 'float64')
    ip.set_model_params(hx=0.25)
    m = model_factory.create(ip.config.model)
    rep.close(bare(m.one_site_hamiltonian((0, 0))).to(torch.complex128), -0.25 * T['X'], 'changed field')
    rep.close(bare(m.two_site_hamiltonian(ip.bond_list[0])).to(torch.complex128), -torch.kron(T['Z'], T['Z']), 'other parameter kept')


def run(rep):
    r = random.Random(rep.seed)
    words_ = []
    for n in (1, 2, 3):
        words_ += [''.join(w) for w in itertools.product('XYZI', repeat=n)]
    words_ += [''.join(r.choice('XYYZI') for _ in range(4)) for _ in range(40)]
    for dt in ('float64', 'complex128', 'float32', 'complex64'):
        for w in words_:
            rep.run('word', words, w, dt, r.choice([0.5, -2.0, 3]))
        for i in range(120 if rep.thorough else 40):
            w = ''.join(r.choice('XYYYZI') for _ in range(r.randrange(3, 8)))
            rep.run('bracketing', trees, dt, w if i else 'YYYY', r.randrange(10 ** 6))
        for at in ((8, 9), (0, 9), (0, 1), (4, 9), (0, 5)):
            rep.run('long word', words, ''.join('Y' if j in at else r.choice('XZI') for j in range(10)), dt, 1)
        for n in (8, 9):
            rep.run('long product', trees, dt, ''.join(r.choice('XYYYZI') for _ in range(n - 1)) + 'Y', r.randrange(10 ** 6))
        for i in range(60 if rep.thorough else 25):
            rep.run('expression', expressions, dt, rep.seed * 100 + i)
        rep.run('in place', inplace, dt)
    for i, (nx, ny) in enumerate(((1, 1), (2, 2), (3, 2), (2, 3), (3, 3))):
        for dt in ('float64', 'complex128', 'float32'):
            rep.run('models', models, nx, ny, dt, rep.seed + i)
    for dt in ('float64', 'complex128'):
        for lo in (0, 4, 8, 16, 32, 64, 99):
            rep.run('models', models, 128, 128, dt, rep.seed, [(r.randrange(lo, 128), r.randrange(lo, 128)) for _ in range(6)] + [(lo, 0), (0, lo), (lo, lo), (lo + 1, lo), (127, 127)])
    rep.run('directions', directions)
    rep.run('parameters', set_params)
