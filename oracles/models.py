"""Model classes used by several oracles (built lazily: they derive from the class in the repository)."""
import random


def random_model(d, seed, one='some', obs=True, hermitian=True, dtype='float64', pauli=False):
    """A model with a different random operator on every site and bond."""
    import torch
    from acetn.model import Model
    cache = {}

    def mat(key, n):
        if key not in cache:
            g = torch.Generator().manual_seed((hash(str(key)) if False else sum(ord(c) * (i + 7) * 131 for i, c in enumerate(str(key)))) + seed)
            m = torch.randn(n, n, dtype=getattr(torch, dtype), generator=g)
            if hermitian:
                m = (m + m.mH) / 2
            cache[key] = m
        return cache[key]

    class RandomModel(Model):
        mats = cache

        def wrap(self, m):
            if pauli:
                from acetn.model.pauli_matrix import PauliMatrix
                return PauliMatrix('O', self.dtype, self.device, mat=m)
            return m

        def one_site_hamiltonian(self, site):
            if one == 'none' or (one == 'some' and (site[0] + 2 * site[1]) % 3 == 1):
                return None
            return self.wrap(mat(('h1', tuple(site)), d))

        def two_site_hamiltonian(self, bond):
            return self.wrap(mat(('h2', tuple(bond.s1), tuple(bond.s2), bond.k), d * d))

        def one_site_observables(self, site):
            return {n: self.wrap(mat((n, tuple(site)), d)) for n in ('oa', 'ob')} if obs else {}

        def two_site_observables(self, bond):
            return {n: self.wrap(mat((n, tuple(bond.s1), tuple(bond.s2), bond.k), d * d)) for n in ('ta', 'tb')} if obs else {}
    RandomModel.mat = staticmethod(mat)
    return RandomModel


def bare(x):
    return x.mat if hasattr(x, 'mat') else x


def instance(ip, cls, params=None):
    from acetn.ipeps.ipeps_config import ModelConfig
    return cls(ModelConfig(dtype=ip.dtype, device=ip.device, dim=ip.dims['phys'], name='m', params=params or {}))
