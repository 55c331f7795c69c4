"""Small models used by the concrete (bounded) contracts; written to the scratch working directory of the check."""
import os

RBC = """
name: growth
symbols:
    exogenous: [e_z]
    states: [z, k]
    controls: [n, i]
    parameters: [beta, sigma, eta, chi, delta, alpha, rho, zbar, sig_z]
definitions: |
    y[t] = exp(z[t])*k[t]^alpha*n[t]^(1-alpha)
    c[t] = y[t] - i[t]
    rk[t] = alpha*y[t]/k[t]
    w[t] = (1-alpha)*y[t]/n[t]
equations:
    arbitrage: |
        chi*n[t]^eta*c[t]^sigma - w[t]                     ⟂ 0.0 <= n[t] <= inf
        1 - beta*(c[t]/c[t+1])^(sigma)*(1-delta+rk[t+1])   ⟂ -inf <= i[t] <= inf
    transition: |
        z[t] = rho*z[t-1] + e_z[t]
        k[t] = (1-delta)*k[t-1] + i[t-1]
calibration:
    beta : 0.99
    delta : 0.025
    alpha : 0.33
    rho : 0.8
    sigma: 2
    eta: 1
    sig_z: 0.016
    zbar: 0
    chi : w/c^sigma/n^eta
    e_z: 0.0
    n: 0.33
    z: zbar
    rk: 1/beta-1+delta
    w: (1-alpha)*exp(z)*(k/n)^(alpha)
    k: n/(rk/alpha)^(1/(1-alpha))
    y: exp(z)*k^alpha*n^(1-alpha)
    i: delta*k
    c: y - i
exogenous: !UNormal
    sigma: sig_z
domain:
    z: [-2*sig_z/(1-rho^2)^0.5,  2*sig_z/(1-rho^2)^0.5]
    k: [ k*0.5, k*1.5]
options:
    grid: !Cartesian
        n: [5, 8]
"""

_cache = {}


def model(txt=RBC, fresh=False):
    """the model described by a text; compiled once per text unless fresh"""
    from dolo import yaml_import
    if fresh or txt not in _cache:
        f = os.path.abspath("model_%d_%d.yaml" % (os.getpid(), len(os.listdir("."))))
        with open(f, "w", encoding="utf-8") as h:
            h.write(txt)
        m = yaml_import(f)
        if fresh: return m
        _cache[txt] = m
    return _cache[txt]
