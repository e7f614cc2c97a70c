"""Fast, behaviourally equal replacements of the slow-to-compile JAX routines of s2fft (dependency) by its own
NumPy reference routines.  Installed before s2wav is imported.  Used only to search widely: every failure that a
stubbed run shows is re-run with the real routines before it is reported with a failing input."""
import numpy as np


def install():
    import jax
    import jax.numpy as jnp
    import s2fft
    from s2fft import base_transforms as b
    from s2fft.precompute_transforms import construct as pc
    from s2fft.sampling import s2_samples, so3_samples

    def call(fn, shape, x):
        out = jax.ShapeDtypeStruct(shape, np.complex128)
        return jax.pure_callback(lambda y: np.asarray(fn(np.asarray(y)), dtype=np.complex128), out, x)

    def shape_in(x, want, what):
        if tuple(x.shape) != tuple(want):
            raise ValueError("%s: input shape %s, expected %s" % (what, tuple(x.shape), tuple(want)))

    def forward_jax(f, L, spin=0, nside=None, sampling="mw", reality=False, precomps=None, spmd=False, L_lower=0, **kw):
        shape_in(f, s2_samples.f_shape(L, sampling, nside), "forward_jax")
        return call(lambda y: b.spherical.forward(y, L, spin, sampling, nside, reality, L_lower), (L, 2 * L - 1), f)

    def inverse_jax(flm, L, spin=0, nside=None, sampling="mw", reality=False, precomps=None, spmd=False, L_lower=0, **kw):
        shape_in(flm, (L, 2 * L - 1), "inverse_jax")
        return call(lambda y: b.spherical.inverse(y, L, spin, sampling, nside, reality, L_lower), s2_samples.f_shape(L, sampling, nside), flm)

    def sig(L, N, sampling, forward, reality, L_lower):
        return [float(x) for x in (L, N, ["mw", "mwss", "dh", "gl"].index(sampling.lower()), bool(forward), bool(reality), L_lower)]

    def check(pre, L, N, sampling, forward, reality, L_lower):
        if pre is None:
            return
        want = sig(L, N, sampling, forward, reality, L_lower)

        def cb(p):
            if [float(x) for x in np.asarray(p).ravel()] != want:
                raise ValueError("recursion coefficients generated for %s used for %s" % (np.asarray(p), want))
            return np.zeros((), np.float64)
        return jax.pure_callback(cb, jax.ShapeDtypeStruct((), np.float64), pre[0] if isinstance(pre, (list, tuple)) else pre)

    def w_forward_jax(f, L, N, nside=None, sampling="mw", reality=False, precomps=None, L_lower=0):
        shape_in(f, so3_samples.f_shape(L, N, sampling, nside), "wigner.forward_jax")
        z = check(precomps, L, N, sampling, True, reality, L_lower)
        r = call(lambda y: b.wigner.forward(y, L, N, L_lower, sampling, reality, nside), (2 * N - 1, L, 2 * L - 1), f)
        return r if z is None else r + z

    def w_inverse_jax(flmn, L, N, nside=None, sampling="mw", reality=False, precomps=None, L_lower=0):
        shape_in(flmn, (2 * N - 1, L, 2 * L - 1), "wigner.inverse_jax")
        z = check(precomps, L, N, sampling, False, reality, L_lower)
        r = call(lambda y: b.wigner.inverse(y, L, N, L_lower, sampling, reality, nside), so3_samples.f_shape(L, N, sampling, nside), flmn)
        return r if z is None else r + z

    def gen(L, N, sampling="mw", nside=None, forward=False, reality=False, L_lower=0):
        return [jnp.array(sig(L, N, sampling, forward, reality, L_lower))]

    wk0 = pc.wigner_kernel_jax

    def wk(L, N, reality=False, sampling="mw", nside=None, forward=False, mode="auto"):
        if N > L:
            return wk0(L, N, reality, sampling, nside, forward)
        return jnp.asarray(pc.wigner_kernel(L, N, reality, sampling, nside, forward))

    sk0 = pc.spin_spherical_kernel_jax

    def sk(L, spin=0, reality=False, sampling="mw", nside=None, forward=True, **kw):
        if abs(spin) >= L:
            return sk0(L, spin, reality, sampling, nside, forward, **kw)
        return jnp.asarray(pc.spin_spherical_kernel(L, spin, reality, sampling, nside, forward))

    import s2fft.transforms.spherical as ts
    import s2fft.transforms.wigner as tw
    import s2fft.recursions.price_mcewen as pm
    for mod in (s2fft, ts):
        mod.forward_jax, mod.inverse_jax = forward_jax, inverse_jax
    for mod in (s2fft.wigner, tw):
        mod.forward_jax, mod.inverse_jax = w_forward_jax, w_inverse_jax
    for mod in (s2fft, pm):
        if hasattr(mod, "generate_precomputes_wigner_jax"):
            mod.generate_precomputes_wigner_jax = gen
    pc.wigner_kernel_jax, pc.spin_spherical_kernel_jax = wk, sk
