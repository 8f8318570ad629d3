"""Independent reference formulas of the matched filter (not using the code under test
except for the tabulated red sequence, chi-squared and background lookups, which have
checks of their own)."""
import math

import numpy as np


def norm_nfw(r):
    x = math.log(r)
    return math.exp(1.65169 - 0.547850 * x + 0.138202 * x ** 2 - 0.0719021 * x ** 3 - 0.0158241 * x ** 4 - 0.000854985 * x ** 5)


def nfw_sigma(r):
    """Projected NFW profile, scale 0.15, core 0.1."""
    x = np.maximum(np.atleast_1d(r) / 0.15, 0.1 / 0.15)
    out = np.zeros(x.size)
    for i, v in enumerate(x):
        if abs(v - 1) < 0.0011:
            out[i] = 1.0 / 3.0
        elif v < 1:
            out[i] = (1 - 2 / math.sqrt(1 - v * v) * math.atanh(math.sqrt((1 - v) / (1 + v)))) / (v * v - 1)
        else:
            out[i] = (1 - 2 / math.sqrt(v * v - 1) * math.atan(math.sqrt((v - 1) / (1 + v)))) / (v * v - 1)
    return out


def erf_step(x, sig):
    return np.array([0.5 + 0.5 * math.erf(v / (math.sqrt(2.0) * s)) for v, s in np.broadcast(x, sig)])


def sphdist(ra1, dec1, ra2, dec2):
    """Degrees."""
    a1, d1, a2, d2 = [np.radians(np.asarray(x, 'f8')) for x in (ra1, dec1, ra2, dec2)]
    s = np.sin((d1 - d2) / 2) ** 2 + np.cos(d1) * np.cos(d2) * np.sin((a1 - a2) / 2) ** 2
    return np.degrees(2 * np.arcsin(np.sqrt(np.clip(s, 0, 1))))


class Filter:
    """Filter values of galaxies around one position and redshift."""

    def __init__(self, par, bkg, conf, z, ra, dec, gals, chi=None, dist=None):
        from scipy import stats
        self.mpc = np.radians(1.0) * float(conf.cosmo.Da(0, z))
        dist = sphdist(ra, dec, gals.ra, gals.dec) if dist is None else dist
        self.r = np.clip(self.mpc * dist, 1e-6, None)
        self.mstar = float(par.mstar(z))
        self.maxmag = self.mstar - 2.5 * math.log10(conf.lval_reference)
        self.chi = np.asarray(par.calculate_chisq(gals, z), 'f8') if chi is None else chi
        self.refmag = np.asarray(gals.refmag, 'f8')
        mags = np.arange(par.lumrefmagbins[0], self.maxmag + 1e-9, 0.01)
        al = par.alpha
        sch = lambda x: 10. ** (0.4 * (al + 1) * (self.mstar - x)) * np.exp(-10. ** (0.4 * (self.mstar - x)))   # noqa
        self.phi = sch(self.refmag) / (sch(mags).sum() * 0.01)
        self.rho = stats.chi2.pdf(self.chi, par.ncol)
        self.u = 2 * np.pi * self.r * nfw_sigma(self.r) * self.phi * self.rho
        self.b = 2 * np.pi * self.r * bkg.sigma_g_lookup(z, self.chi, self.refmag) / self.mpc ** 2
        lim = min(self.maxmag, par.limmag)
        self.theta_i = erf_step(lim - self.refmag, np.asarray(gals.refmag_err, 'f8'))
        self.theta_i[self.refmag > par.limmag] = 0.0
        self.par = par
        self.rsig = conf.rsig

    def members(self, lam, r_lambda):
        """p, theta_r, pcol at this richness."""
        with np.errstate(all='ignore'):
            x = lam * self.u * norm_nfw(r_lambda)
            p = x / (x + self.b)
            y = self.rho * self.phi * lam
            pcol = y / (y + self.b)
        p = np.where(np.isfinite(p), p, 0.0)
        th = (self.r < r_lambda).astype('f8') if self.rsig <= 0 else erf_step(r_lambda - self.r, self.rsig)
        pcol = np.where(np.isfinite(pcol) & (self.r <= r_lambda) & (self.refmag <= self.maxmag) & (self.refmag <= self.par.limmag), pcol, 0.0)
        return p, th, pcol


_CACHE = {}


def memoize_readers():
    """Reading the parameter and background files dominates short runs: read each only once per process tree."""
    import redmapper
    from redmapper import background, redsequence
    for cls in (redsequence.RedSequenceColorPar, background.Background, background.ZredBackground):
        if getattr(cls.__init__, '_memo', False):
            continue

        def wrap(orig, cls=cls):
            def init(self, *a, **k):
                if any(x is not None for x in list(a[1:]) if not isinstance(x, (bool, int, float, str))) or 'config' in k:
                    return orig(self, *a, **k)
                key = (cls.__name__, a, tuple(sorted(k.items())))
                if key not in _CACHE:
                    orig(self, *a, **k)
                    _CACHE[key] = dict(self.__dict__)
                else:
                    self.__dict__.update(_CACHE[key])
            init._memo = True
            return init
        cls.__init__ = wrap(cls.__init__)
    return redmapper


class fixed_random:
    """Every call to numpy's global generator starts a fresh stream: results do not depend on how many numbers
    were drawn before, so that two runs can be compared cluster by cluster."""
    NAMES = ('rand', 'random', 'random_sample', 'uniform', 'normal', 'standard_normal', 'choice', 'poisson', 'randint', 'randn', 'permutation')

    def __init__(self, seed=12345):
        self.seed = seed

    def __enter__(self):
        self.old = {n: getattr(np.random, n) for n in self.NAMES}

        def make(n):
            def f(*a, **k):
                return getattr(np.random.RandomState(self.seed), n)(*a, **k)
            return f
        for n in self.NAMES:
            setattr(np.random, n, make(n))
        return self

    def __exit__(self, *exc):
        for n, f in self.old.items():
            setattr(np.random, n, f)
