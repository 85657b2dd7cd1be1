"""C14: units and cosmological parameters."""
import numpy as np
import sympy as sp
from symex.engine import Job
from .common import TRUSTED

PRELOAD = ('primpy.units', 'primpy.parameters', 'primpy.bigbang')
EXPLANATION = ('The modules are executed with the measured constants (speed of light, Planck, Newton, Boltzmann '
               'constants, electron charge, parsec) as positive symbols. z3 decides, for every value of them, that the '
               'reduced Planck units are those for which hbar = c = k_B = 8 pi G = 1, in SI and in GeV, and that the derived '
               'parameters follow from their definitions.')
BOUNDS = 'every positive value of the measured constants (the measured parameters T_CMB, N_eff and K_STAR as in the source)'
ASSUMPTIONS = list(TRUSTED)


def consts(p):
    u = p.mod('primpy.units')
    pi = p.S(sp.pi) if p.mode == 'sym' else np.pi
    return u, pi


def unit_system(p):
    u, pi = consts(p)
    m, t, l, T = u.mp_kg, u.tp_s, u.lp_m, u.Tp_K
    ln = np.log

    def eq(name, a, b):
        p.eq(name, ln(a), ln(b), scale=1.)
    # hbar = c = k_B = 8 pi G = 1
    eq('hbar', m * l**2 / t, u.hbar)
    eq('c', l / t, u.c)
    eq('8 pi G', l**3 / m / t**2, 8 * pi * u.G)
    eq('k_B', m * l**2 / t**2 / T, u.k_B)
    # the same in particle physics units, where hbar = c = 1
    GeV_J = 10**9 * u.e
    eq('mass in GeV', u.mp_GeV, m * u.c**2 / GeV_J)
    eq('time in 1/GeV', u.tp_iGeV, t * GeV_J / u.hbar)
    eq('length in 1/GeV', u.lp_iGeV, l * GeV_J / (u.hbar * u.c))
    eq('lp mp', u.lp_iGeV * u.mp_GeV, p.S(1) if p.mode == 'sym' else 1.)
    eq('tp mp', u.tp_iGeV * u.mp_GeV, p.S(1) if p.mode == 'sym' else 1.)
    eq('Mpc', u.Mpc_m, 10**6 * u.parsec_m)
    # Stefan-Boltzmann
    eq('radiation constant', u.a_B, pi**2 * u.k_B**4 / (15 * u.hbar**3 * u.c**3))


def parameters(p):
    u, pi = consts(p)
    q = p.mod('primpy.parameters')
    ln = np.log
    one = p.S(1) if p.mode == 'sym' else 1.

    def eq(name, a, b):
        p.eq(name, ln(one * a), ln(one * b), scale=1.)
    T = q.T_CMB_K
    eq('pivot scale', q.K_STAR_lp * u.Mpc_m, q.K_STAR * u.lp_m)
    eq('T_CMB in Planck units', q.T_CMB_Tp * u.Tp_K, T)
    # neutrinos: entropy conservation at electron-positron annihilation
    eq('neutrino temperature ratio', q.T_nu_TCMB**3, 4 * one / 11)
    p.eq('neutrino temperature', q.T_nu_K, q.T_nu_TCMB * T)
    eq('neutrino temperature in Planck units', q.T_nu_Tp * u.Tp_K, q.T_nu_K)
    eq('entropy degrees of freedom', q.g0, 2 + 7 * one / 4 * q.N_eff * 4 / 11)
    # Planck's law: rho c^2 = pi^2 (k T)^4 / (15 (hbar c)^3)
    rho = pi**2 * (u.k_B * T)**4 / (15 * (u.hbar * u.c)**3) / u.c**2
    eq('photon density', q.rho_gamma0_kg_im3, rho)
    nu = 7 * one / 8 * q.N_eff * (4 * one / 11)**(p.S(4) / 3 if p.mode == 'sym' else 4 / 3)
    eq('neutrino density', q.rho_nu0_kg_im3, nu * rho)
    p.eq('radiation density', q.rho_r0_kg_im3 / rho, 1 + nu, scale=1.)
    eq('radiation density in Planck units', q.rho_r0_mp_ilp3 * u.mp_kg / u.lp_m**3, q.rho_r0_kg_im3)
    # in Planck units Planck's law is pi^2/15 T^4
    p.eq('Planck law in Planck units', q.rho_r0_mp_ilp3 / q.T_CMB_Tp**4, pi**2 / 15 * (1 + nu), scale=1.)


def derived(p):
    """Densities today in terms of little h."""
    u, pi = consts(p)
    q, b = p.mod('primpy.parameters'), p.mod('primpy.bigbang')
    h = p.pos('h', sample=.7)
    H = h * 100 * 1000 / u.Mpc_m
    ln = np.log
    p.eq('critical density', ln(8 * pi * u.G * b.get_rho_crit_kg_im3(h) / 3), ln(H**2), scale=1.)
    p.eq('radiation density parameter', ln(b.get_Omega_r0(h) * b.get_rho_crit_kg_im3(h)), ln(q.rho_r0_kg_im3), scale=1.)
    # Friedmann equation in Planck units: 3 H^2 = rho
    p.eq('Friedmann in Planck units', ln(b.get_Omega_r0(h) * 3 * b.get_H0(h)**2), ln(q.rho_r0_mp_ilp3), scale=1.)


def jobs(tier):
    return [Job('units', unit_system), Job('parameters', parameters), Job('densities', derived)]
