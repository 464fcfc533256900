"""L03: calculations which define one another agree."""
from __future__ import annotations
import math
import re

from .. import kernels as kn
from .. import laws
from ..nf import Undecided
from ..pool import pmap
from ..randint import K, draw
from .l02 import unit
from .n05 import holds

CORE, FIT, FRI, TWO, VOID, COMP, FLOW, OPEN, PUMP, PIPE, VALVE, PACK, TOWER, SEP, MIX, SAFE, DRAG, ATM, JET, FILT, SALT = (
    'fluids.' + x for x in ('core', 'fittings', 'friction', 'two_phase', 'two_phase_voidage', 'compressible', 'flow_meter', 'open_flow', 'pump', 'piping', 'control_valve', 'packed_bed',
                            'packed_tower', 'separator', 'mixing', 'safety_valve', 'drag', 'atmosphere', 'jet_pump', 'filters', 'saltation'))
MODULES = (CORE, FIT, FRI, TWO, VOID, COMP, FLOW, OPEN, PUMP, PIPE, VALVE, PACK, TOWER, SEP, MIX, SAFE, DRAG, ATM, JET, FILT, SALT)
G0 = 9.80665
R0 = 8.31446261815324
PI = math.pi


def scale(name, lo, hi):
    return [lo * (hi / lo) ** x for x in unit(name, 0.0, 1.0)]


RANGES = {'x': (0.02, 0.98), 'voidage': (0.3, 0.7), 'alpha_v': (0.05, 0.95), 'angle': (5.0, 85.0), 'eD': (1e-5, 0.04), 'k': (1.1, 1.6), 'eta': (0.5, 0.95), 'latitude': (5.0, 85.0)}
SPANS = {'D': (0.02, 2.0), 'L': (0.1, 30.0), 'V': (0.05, 8.0), 'rho': (0.5, 1500.0), 'rhol': (500.0, 1500.0), 'rhog': (0.5, 60.0), 'mu': (1e-5, 0.1), 'mul': (1e-4, 0.1), 'mug': (5e-6, 3e-5),
         'sigma': (5e-3, 0.08), 'm': (0.05, 50.0), 'Re': (20.0, 1e7), 'Cp': (800.0, 4500.0), 'T': (220.0, 900.0), 'P': (5e4, 5e6), 'g': (3.0, 15.0), 'Di': (0.02, 0.5), 'Dc': (0.6, 3.0),
         'dp': (1e-4, 1e-2), 'Q': (1e-3, 1.0), 'K': (0.05, 20.0), 'fd': (0.008, 0.05), 'roughness': (1e-6, 2e-4), 'MW': (2.0, 120.0), 'alpha': (1e-8, 1e-4), 'Df': (1e-10, 1e-4), 't': (0.1, 100.0)}


def points():
    p = {n: unit(n, *r) for n, r in RANGES.items()} | {n: scale(n, *r) for n, r in SPANS.items()} | {n: draw(n) for n in ('h', 'q', 'S', 'n')}
    p['D2'] = [d * (1.1 + y) for d, y in zip(p['D'], unit('d2'))]
    p['Do'] = [d * y for d, y in zip(p['D'], unit('do', 0.3, 0.75))]
    p['P2'] = [q * y for q, y in zip(p['P'], unit('p2', 0.55, 0.95))]
    p['T2'] = [t * (1 + y) for t, y in zip(p['T'], unit('t2'))]
    p['rholg'] = [a * x + b * (1 - x) for a, b, x in zip(p['rhol'], p['rhog'], p['x'])]
    return p


def same(r, p):
    return [(r[0], y) for y in r[1:]]


def zero(r, p):
    return [(y, 0.0) for y in r]


def jobs():
    """(module, function, text, expressions, law)"""
    def eq(m, f, text, *exprs, law=same):
        return m, f, text, exprs, law
    re = 'Reynolds(V=V, D=D, rho=rho, mu=mu)'
    yield eq(CORE, 'Reynolds', 'kinematic and dynamic viscosity are the same viscosity', re, 'Reynolds(V=V, D=D, nu=mu/rho)')
    yield eq(CORE, 'Peclet_heat', 'Pe = Re Pr', 'Peclet_heat(V=V, L=D, rho=rho, Cp=Cp, k=k)', f'{re}*Prandtl(Cp=Cp, k=k, mu=mu)', 'Peclet_heat(V=V, L=D, alpha=thermal_diffusivity(k, rho, Cp))')
    yield eq(CORE, 'Peclet_mass', 'Pe = Re Sc', 'Peclet_mass(V, D, Df)', f'{re}*Schmidt(D=Df, mu=mu, rho=rho)', f'{re}*Schmidt(D=Df, nu=mu/rho)')
    yield eq(CORE, 'Graetz_heat', 'Gz = Pe D/x', 'Graetz_heat(V=V, D=D, x=L, rho=rho, Cp=Cp, k=k)', 'Peclet_heat(V=V, L=D, rho=rho, Cp=Cp, k=k)*D/L', 'Graetz_heat(V=V, D=D, x=L, alpha=k/(rho*Cp))')
    yield eq(CORE, 'Lewis', 'Le = Sc/Pr', 'Lewis(D=Df, Cp=Cp, k=k, rho=rho)', 'Schmidt(D=Df, mu=mu, rho=rho)/Prandtl(Cp=Cp, k=k, mu=mu)', 'Lewis(D=Df, alpha=thermal_diffusivity(k, rho, Cp))')
    yield eq(CORE, 'Fourier_heat', 'both forms agree', 'Fourier_heat(t=t, L=D, rho=rho, Cp=Cp, k=k)', 'Fourier_heat(t=t, L=D, alpha=thermal_diffusivity(k, rho, Cp))', 't*thermal_diffusivity(k, rho, Cp)/D**2')
    yield eq(CORE, 'Fourier_mass', 'Fo = L/(V t) ... = t D/L^2', 'Fourier_mass(t, L, Df)', 't*V/L/Peclet_mass(V, L, Df)')
    yield eq(CORE, 'Prandtl', 'all forms agree', 'Prandtl(Cp=Cp, k=k, mu=mu)', 'Prandtl(Cp=Cp, k=k, nu=mu/rho, rho=rho)', 'Prandtl(nu=mu/rho, alpha=k/(rho*Cp))')
    yield eq(CORE, 'Grashof', 'kinematic and dynamic viscosity are the same viscosity', 'Grashof(L=L, beta=1/T, T1=T2, T2=T, rho=rho, mu=mu, g=g)', 'Grashof(L=L, beta=1/T, T1=T2, T2=T, nu=mu/rho, g=g)', 'Grashof(L=L, beta=1/T, T1=T, T2=T2, nu=mu/rho, g=g)')
    yield eq(CORE, 'Rayleigh', 'Ra = Gr Pr', 'Rayleigh(Pr=Prandtl(Cp=Cp, k=k, mu=mu), Gr=Grashof(L=L, beta=1/T, T1=T2, T2=T, rho=rho, mu=mu, g=g))', 'g/T*(T2 - T)*L**3*rho/mu/thermal_diffusivity(k, rho, Cp)')
    yield eq(CORE, 'Ohnesorge', 'Oh = We**0.5/Re', 'Ohnesorge(L=D, rho=rho, mu=mu, sigma=sigma)', f'Weber(V=V, L=D, rho=rho, sigma=sigma)**0.5/{re}')
    yield eq(CORE, 'Suratman', 'Su = Re^2/We = 1/Oh^2', 'Suratman(L=D, rho=rho, mu=mu, sigma=sigma)', f'{re}**2/Weber(V=V, L=D, rho=rho, sigma=sigma)', 'Ohnesorge(L=D, rho=rho, mu=mu, sigma=sigma)**-2')
    yield eq(CORE, 'Capillary', 'Ca = We/Re', 'Capillary(V, mu, sigma)', f'Weber(V=V, L=D, rho=rho, sigma=sigma)/{re}')
    yield eq(CORE, 'Confinement', 'Co = Bo**-0.5', 'Confinement(D=D, rhol=rhol, rhog=rhog, sigma=sigma, g=9.80665)', 'Bond(rhol=rhol, rhog=rhog, sigma=sigma, L=D)**-0.5')
    yield eq(CORE, 'Morton', 'Mo = We^3/(Fr^2 Re^4) for the difference of densities', 'Morton(rhol, rhog, mul, sigma, g)', 'Weber(V=V, L=D, rho=rhol, sigma=sigma)**3/(Froude(V=V, L=D, g=g)**2*Reynolds(V=V, D=D, rho=rhol, mu=mul)**4)*(rhol - rhog)/rhol')
    yield eq(CORE, 'Froude', 'the square is the square', 'Froude(V=V, L=L, g=g, squared=True)', 'Froude(V=V, L=L, g=g)**2')
    yield eq(CORE, 'Froude_densimetric', 'Fr_d^2 = Fr^2 rho1/(rho1 - rho2)', 'Froude_densimetric(V=V, L=L, rho1=rhol, rho2=rhog, heavy=True, g=g)**2', 'Froude(V=V, L=L, g=g)**2*rhol/(rhol - rhog)')
    yield eq(CORE, 'Froude_densimetric', 'the light phase counts when asked for', 'Froude_densimetric(V=V, L=L, rho1=rhol, rho2=rhog, heavy=False, g=g)**2', 'Froude(V=V, L=L, g=g)**2*rhog/(rhol - rhog)')
    yield eq(CORE, 'Stanton', 'St = Nu/(Re Pr)', 'Stanton(h=h, V=V, rho=rho, Cp=Cp)', f'Nusselt(h=h, L=D, k=k)/({re}*Prandtl(Cp=Cp, k=k, mu=mu))')
    yield eq(CORE, 'Biot', 'Biot and Nusselt numbers have one form', 'Biot(h, L, k)', 'Nusselt(h, L, k)')
    yield eq(CORE, 'Sherwood', 'Sh has the form of Nu', 'Sherwood(h, L, Df)', 'Nusselt(h, L, Df)')
    yield eq(CORE, 'Hagen', 'Hg = Re^2 fd/2', f'Hagen({re}, fd)', f'{re}**2*fd/2')
    yield eq(CORE, 'Bejan_p', 'Be_p is Be_L with the permeability for the square of the length', 'Bejan_p(dP=P, K=L*L, mu=mu, alpha=alpha)', 'Bejan_L(dP=P, L=L, mu=mu, alpha=alpha)')
    yield eq(CORE, 'Archimedes', 'Ar = g L^3 rho (rhop - rho)/mu^2', 'Archimedes(dp, rhog, rhol, mug, g)', 'Froude_densimetric(V=V, L=dp, rho1=rhol, rho2=rhog, heavy=False, g=g)**-2*Reynolds(V=V, D=dp, rho=rhog, mu=mug)**2')
    yield eq(CORE, 'Euler', 'Eu = dP/(rho V^2); a pressure drop of K makes K/2', 'Euler(dP=dP_from_K(K, rho, V), rho=rho, V=V)', 'K/2')
    yield eq(CORE, 'Cavitation', 'it is twice the Euler number of the margin', 'Cavitation(P=P, Psat=P2, rho=rho, V=V)', '2*Euler(dP=P - P2, rho=rho, V=V)')
    yield eq(CORE, 'Stokes_number', 'Stk = rhop V Dp^2/(18 mu D)', 'Stokes_number(V, dp, D, rhol, mu)', 'Reynolds(V=V, D=dp, rho=rhol, mu=mu)*dp/D/18')
    yield eq(CORE, 'Dean', 'De = Re (Di/D)**0.5', f'Dean({re}, Di, Dc)**2', f'{re}**2*Di/Dc')
    yield eq(CORE, 'nu_mu_converter', 'it undoes itself', 'nu_mu_converter(rho, nu=nu_mu_converter(rho, mu=mu))', 'mu')
    yield eq(CORE, 'c_ideal_gas', 'c^2 = k R T/M', 'c_ideal_gas(T, k, MW)**2', f'k*{R0}*T*1000/MW')
    yield eq(CORE, 'Mach', 'it is the velocity by that of sound', 'Mach(V, c_ideal_gas(T, k, MW))', 'V/c_ideal_gas(T, k, MW)')
    yield eq(CORE, 'Drag', 'F = Cd A rho V^2/2', 'Drag(K*D*D*dP_from_K(1.0, rho, V), D*D, V, rho)', 'K')
    yield eq(CORE, 'head_from_K', 'h = dP/(rho g)', 'head_from_K(K, V, g)', 'head_from_P(dP_from_K(K, rho, V), rho, g)')
    yield eq(CORE, 'P_from_head', 'it undoes head_from_P', 'P_from_head(head_from_P(P, rho, g), rho, g)', 'P')
    yield eq(CORE, 'f_from_K', 'it undoes K_from_f', 'f_from_K(K_from_f(fd, L, D), L, D)', 'fd')
    yield eq(CORE, 'L_from_K', 'it undoes K_from_f', 'L_from_K(K_from_f(fd, L, D), D, fd)', 'L')
    yield eq(CORE, 'L_equiv_from_K', 'it undoes K_from_L_equiv, which is the K of that many diameters', 'L_equiv_from_K(K_from_L_equiv(t, fd), fd)', 't', 'L_from_K(K_from_L_equiv(t, fd), D, fd)/D')
    chain = [('C2F', 'F2K', 'C2K'), ('C2R', 'R2K', 'C2K'), ('F2R', 'R2K', 'F2K'), ('K2C', 'C2F', 'K2F'), ('K2R', 'R2F', 'K2F'), ('R2C', 'C2K', 'R2K'), ('F2C', 'C2R', 'F2R'), ('R2F', 'F2C', 'R2C'), ('K2F', 'F2R', 'K2R')]
    for a, b, ab in chain:
        yield eq(CORE, ab, f'{b} after {a} is the same', f'{ab}(T)', f'{b}({a}(T))')
    # pipes
    yield eq(FRI, 'one_phase_dP', 'it is that of the loss coefficient of the pipe', 'one_phase_dP(m, rho, mu, D, roughness, L)', 'dP_from_K(K_from_f(friction_factor(Reynolds(V=m/(rho*pi/4*D**2), D=D, rho=rho, mu=mu), roughness/D), L, D), rho, m/(rho*pi/4*D**2))')
    yield eq(FRI, 'friction_factor', 'a Fanning factor is a quarter of a Darcy factor', '4*friction_factor(Re, eD, Darcy=False)', 'friction_factor(Re, eD)')
    yield eq(FRI, 'friction_factor', 'laminar flow has the laminar factor', 'friction_factor(Re/20000, eD)', 'friction_laminar(Re/20000)')
    yield eq(FRI, 'friction_factor_curved', 'a Fanning factor is a quarter of a Darcy factor', '4*friction_factor_curved(Re, Di, Dc, roughness, Darcy=False)', 'friction_factor_curved(Re, Di, Dc, roughness)')
    yield eq(FRI, 'friction_factor_curved', 'laminar flow has the laminar factor', 'friction_factor_curved(Re/20000, Di, Dc)', 'helical_laminar_fd_Schmidt(Re/20000, Di, Dc)')
    yield eq(FRI, 'one_phase_dP_gravitational', 'a vertical pipe has the pressure of its head', 'one_phase_dP_gravitational(90.0, rho, L, g)', 'rho*g*L')
    yield eq(FRI, 'one_phase_dP_acceleration', 'it is opposite to that of the opposite way', 'one_phase_dP_acceleration(m, D, rhog, rhol) + one_phase_dP_acceleration(m, D, rhol, rhog)', law=zero)
    yield eq(FRI, 'one_phase_dP_acceleration', 'the inlet has the diameter of the pipe unless given', 'one_phase_dP_acceleration(m, D, rhog, rhol, D)', 'one_phase_dP_acceleration(m, D, rhog, rhol)')
    yield eq(FRI, 'transmission_factor', 'it undoes itself', 'transmission_factor(F=transmission_factor(fd=fd))', 'fd')
    # two phases
    yield eq(TWO, 'two_phase_dP_gravitational', 'equal ends make the gradient times the height', 'two_phase_dP_gravitational(angle, L, x, rhol, rhog, x, rhol, rhog, g)', 'two_phase_dP_dz_gravitational(angle, x, rhol, rhog, g)*L')
    yield eq(TWO, 'two_phase_dP_gravitational', 'equal densities make the one phase pressure', 'two_phase_dP_gravitational(angle, L, x, rhol, rhol, g=g)', 'one_phase_dP_gravitational(angle, rhol, L, g)')
    yield eq(TWO, 'two_phase_dP_gravitational', 'the outlet is the inlet unless given', 'two_phase_dP_gravitational(angle, L, x, rhol, rhog, g=g)', 'two_phase_dP_gravitational(angle, L, x, rhol, rhog, x, rhol, rhog, g)')
    yield eq(TWO, 'two_phase_dP_gravitational', 'ends may be exchanged', 'two_phase_dP_gravitational(angle, L, x, rhol, rhog, eta, rho, mu, g)', 'two_phase_dP_gravitational(angle, L, eta, rho, mu, x, rhol, rhog, g)')
    yield eq(TWO, 'two_phase_dP_dz_gravitational', 'it is that of the mean density', 'two_phase_dP_dz_gravitational(angle, x, rhol, rhog, g)*L', 'one_phase_dP_gravitational(angle, density_two_phase(x, rhol, rhog), L, g)')
    yield eq(TWO, 'two_phase_dP_acceleration', 'it is opposite to that of the opposite way', 'two_phase_dP_acceleration(m, D, x, eta, eta, x, rhol, rhog) + two_phase_dP_acceleration(m, D, eta, x, x, eta, rhol, rhog)', law=zero)
    yield eq(VOID, 'two_phase_voidage_experimental', 'it undoes density_two_phase', 'two_phase_voidage_experimental(density_two_phase(x, rhol, rhog), rhol, rhog)', 'x')
    yield eq(VOID, 'homogeneous', 'the density of homogeneous flow is the mass by the volume', 'density_two_phase(homogeneous(x, rhol, rhog), rhol, rhog)', '1/(x/rhog + (1 - x)/rhol)')
    for f in ('McAdams', 'Cicchitti', 'Lin_Kwok'):
        yield eq(VOID, f, 'equal viscosities are kept', f'{f}(x, mu, mu)', 'mu')
        yield eq(VOID, f, 'pure phases have their own viscosity', f'{f}(0.0, mul, mug)/mul', f'{f}(1.0, mul, mug)/mug', '1.0')
    for f in ('Beattie_Whalley', 'Fourar_Bories', 'Duckler'):
        yield eq(VOID, f, 'pure phases have their own viscosity', f'{f}(0.0, mul, mug, rhol, rhog)/mul', f'{f}(1.0, mul, mug, rhol, rhog)/mug', '1.0')
    for f, a in (('Thom', 'mul, mug'), ('Zivi', ''), ('Smith', ''), ('Fauske', ''), ('Chisholm_voidage', ''), ('Turner_Wallis', 'mul, mug'), ('homogeneous', ''), ('Chisholm_Armand', ''), ('Baroczy', 'mul, mug'), ('Huq_Loth', '')):
        yield eq(VOID, f, 'all vapour leaves no liquid', f'{f}(1.0, rhol, rhog{", " * bool(a)}{a})', '1.0')
        yield eq(VOID, f, 'all liquid leaves no vapour', f'1 + {f}(0.0, rhol, rhog{", " * bool(a)}{a})', '1.0')
    # gases
    yield eq(COMP, 'T_stagnation', 'pressure and temperature stagnate together', 'P_stagnation(P, T, T_stagnation(T, P, P2*3, k), k)', 'P2*3')
    yield eq(COMP, 'P_stagnation', 'at the velocity of sound the pressure is the critical one', 'P_critical_flow(P_stagnation(P, T, T*(k + 1)/2, k), k)', 'P')
    yield eq(COMP, 'T_critical_flow', 'at the velocity of sound the temperature is the critical one', 'T_critical_flow(T*(k + 1)/2, k)', 'T')
    yield eq(COMP, 'T_stagnation_ideal', 'the stagnation energy heats the gas', 'T_stagnation_ideal(T, V, Cp)', 'T + stagnation_energy(V)/Cp')
    yield eq(COMP, 'isentropic_T_rise_compression', 'an ideal compression is isentropic', 'isentropic_T_rise_compression(T, P2, P, k)', 'T*(P/P2)**((k - 1)/k)')
    yield eq(COMP, 'isentropic_T_rise_compression', 'losses heat by the inverse of the efficiency', '(isentropic_T_rise_compression(T, P2, P, k, eta) - T)*eta', 'isentropic_T_rise_compression(T, P2, P, k) - T')
    yield eq(COMP, 'isentropic_work_compression', 'the work is the rise of the enthalpy', 'isentropic_work_compression(T, k, 1.0, P2, P, eta=eta)', f'{R0}*k/(k - 1)*(isentropic_T_rise_compression(T, P2, P, k, eta) - T)')
    for v in ('P2', 'P1', 'eta', 'T1'):
        ins = {'T1': 'T', 'P1': 'P2', 'P2': 'P', 'eta': 'eta'}
        rest = ', '.join(f'{a}={b}' for a, b in ins.items() if a != v)
        yield eq(COMP, 'isentropic_work_compression', f'{v} comes back from the work', f"isentropic_work_compression({f'T1=None, ' * (v == 'T1')}k=k, Z=0.9, W=isentropic_work_compression(T1=T, k=k, Z=0.9, P1=P2, P2=P, eta=eta), {rest})", ins[v])
    yield eq(COMP, 'isentropic_efficiency', 'the isentropic efficiency comes back', 'isentropic_efficiency(P2, P, k, eta_p=isentropic_efficiency(P2, P, k, eta_s=eta))', 'eta')
    yield eq(COMP, 'polytropic_exponent', 'the polytropic efficiency comes back', 'polytropic_exponent(k, n=polytropic_exponent(k, eta_p=eta))', 'eta')
    yield eq(COMP, 'isothermal_work_compression', 'the work of two stages adds up', 'isothermal_work_compression(P2, P, T, 0.9)', 'isothermal_work_compression(P2, P*7, T, 0.9) + isothermal_work_compression(P*7, P, T, 0.9)', 'isothermal_work_compression(P2, P, T)*0.9')
    yield eq(COMP, 'is_critical_flow', 'it is critical below the critical pressure', '1.0 if is_critical_flow(P, P_critical_flow(P, k)*0.99, k) else 0.0', '0.0 if is_critical_flow(P, P_critical_flow(P, k)*1.01, k) else 1.0', '1.0')
    for f in ('Panhandle_A', 'Panhandle_B', 'Weymouth', 'Spitzglass_high', 'Spitzglass_low', 'Oliphant', 'Fritzsche', 'Muller', 'IGT'):
        mu = 'mu=mug, ' * (f in ('Muller', 'IGT'))
        for v, y in (('P1', 'P'), ('P2', 'P2'), ('L', 'L'), ('D', 'D')):
            give = {'P1': 'P', 'P2': 'P2', 'L': 'L', 'D': 'D'}
            rest = ', '.join(f'{a}={b}' for a, b in give.items() if a != v)
            allf = ', '.join(f'{a}={b}' for a, b in give.items())
            yield eq(COMP, f, f'{v} comes back from the flow', f'{f}(SG=0.7, Tavg=T, {mu}Q={f}(SG=0.7, Tavg=T, {mu}{allf}), {rest})', y)
    for v, y in (('P1', 'P'), ('P2', 'P2'), ('L', 'L')):
        rest = ', '.join(f'{a}={b}' for a, b in {'P1': 'P', 'P2': 'P2', 'L': 'L', 'D': 'D'}.items() if a != v)
        yield eq(COMP, 'isothermal_gas', f'{v} comes back from the flow', f'isothermal_gas(rho=rhog, fd=fd, m=isothermal_gas(rho=rhog, fd=fd, P1=P, P2=P2, L=L, D=D), {rest})', y)
    # meters
    yield eq(FLOW, 'flow_coefficient', 'it is the discharge coefficient with the velocity of approach', 'flow_coefficient(D, Do, eta)', 'eta*velocity_of_approach_factor(D, Do)')
    yield eq(FLOW, 'K_to_discharge_coefficient', 'it undoes discharge_coefficient_to_K', 'K_to_discharge_coefficient(D, Do, discharge_coefficient_to_K(D, Do, eta))', 'eta')
    yield eq(FLOW, 'dP_orifice', 'the loss is that of the loss coefficient', 'dP_orifice(D, Do, P, P2, eta)/(P - P2)*(4*flow_meter_discharge(D, Do, P, P2, rho, eta, 1.0)/(pi*D*D))**-2*2*rho*(P - P2)', 'discharge_coefficient_to_K(D, Do, eta)')
    yield eq(FLOW, 'diameter_ratio_cone_meter', 'the cone leaves the area of that ratio', '1 - diameter_ratio_cone_meter(D, Do)**2', '(Do/D)**2')
    yield eq(FLOW, 'orifice_expansibility', 'without a drop nothing expands', 'orifice_expansibility(D, Do, P, P, k)', 'orifice_expansibility_1989(D, Do, P, P, k)', 'cone_meter_expansibility_Stewart(D, Do, P, P, k)', '1.0')
    # channels
    yield eq(OPEN, 'V_Manning', 'Chezy with the converted coefficient', 'V_Manning(L, x, eD)', 'V_Chezy(L, x, n_Manning_to_C_Chezy(eD, L))')
    yield eq(OPEN, 'C_Chezy_to_n_Manning', 'it undoes n_Manning_to_C_Chezy', 'C_Chezy_to_n_Manning(n_Manning_to_C_Chezy(eD, L), L)', 'eD')
    # fittings
    yield eq(FIT, 'change_K_basis', 'it undoes itself, and the pressure drop is the same', 'change_K_basis(change_K_basis(K, D, D2), D2, D)', 'K')
    yield eq(FIT, 'change_K_basis', 'the pressure drop is that of the other velocity', 'dP_from_K(change_K_basis(K, D, D2), rho, V*(D/D2)**2)', 'dP_from_K(K, rho, V)')
    yield eq(FIT, 'Cv_to_K', 'by way of Kv it is the same', 'Cv_to_K(K*100, D)', 'Kv_to_K(Cv_to_Kv(K*100), D)')
    yield eq(FIT, 'K_to_Cv', 'by way of Kv it is the same', 'K_to_Cv(K, D)', 'Kv_to_Cv(K_to_Kv(K, D))')
    yield eq(FIT, 'K_to_Kv', 'it undoes Kv_to_K', 'K_to_Kv(Kv_to_K(K, D), D)', 'K')
    yield eq(FIT, 'Cv_to_Kv', 'it undoes Kv_to_Cv', 'Cv_to_Kv(Kv_to_Cv(K))', 'K')
    yield eq(FIT, 'diffuser_sharp', 'the loss of Borda and Carnot', 'diffuser_sharp(D, D2)', '(1 - (D/D2)**2)**2')
    yield eq(FIT, 'Hooper2K', 'two K of a fitting', 'Hooper2K(Di, Re, K1=h, Kinfty=K)', 'h/Re + K*(1 + 1/Di)')
    # control valves, pumps, packings
    yield eq(VALVE, 'convert_flow_coefficient', 'the scales convert in a ring', "convert_flow_coefficient(convert_flow_coefficient(convert_flow_coefficient(K, 'Cv', 'Av'), 'Av', 'Kv'), 'Kv', 'Cv')", 'K')
    yield eq(VALVE, 'control_valve_choke_P_l', 'P1 and P2 of choking undo each other', 'control_valve_choke_P_l(P2/10, P*20, 0.9, P2=control_valve_choke_P_l(P2/10, P*20, 0.9, P1=P))', 'P')
    yield eq(VALVE, 'control_valve_choke_P_g', 'P1 and P2 of choking undo each other', 'control_valve_choke_P_g(x/2, k, P2=control_valve_choke_P_g(x/2, k, P1=P))', 'P')
    yield eq(PUMP, 'current_ideal', 'three phases take one by the square root of three', 'current_ideal(P, T, 3, eta)*3**0.5', 'current_ideal(P, T, 1, eta)')
    yield eq(PUMP, 'speed_synchronous', 'twice the poles halve the speed', 'speed_synchronous(t, 4)*2', 'speed_synchronous(t, 2)', '60.0*t')
    yield eq(PUMP, 'specific_diameter', 'specific speed times specific diameter', 'specific_diameter(Q, L, D)*specific_speed(Q, L, t)', 't*D*9.0**0/L**0.5')
    yield eq(SEP, 'K_Souders_Brown_theoretical', 'droplets hover at the terminal velocity', 'v_Souders_Brown(K_Souders_Brown_theoretical(dp, K, 9.80665), rhol, rhog)**2*rhog*K*3', f'4*{G0}*dp*(rhol - rhog)')
    yield eq(PACK, 'dP_packed_bed', 'sphericity shortens the diameter', "dP_packed_bed(dp, voidage, V, rho, mu, L, sphericity=eta, Method='Ergun')", 'Ergun(dp*eta, voidage, V, rho, mu, L)')
    yield eq(TOWER, 'voidage_experimental', 'the mesh fills the rest', '(1 - voidage_experimental(m, rho*1000, D*5, L))*rho*1000*pi/4*(D*5)**2*L', 'm')
    yield eq(TOWER, 'specific_area_mesh', 'S = 4(1 - voidage)/d', 'specific_area_mesh(voidage, dp)*dp', '4*(1 - voidage)')
    yield eq(MIX, 'K_motionless_mixer', 'it is K of the length', 'K_motionless_mixer(K, L, D, fd)', 'K*K_from_f(fd, L, D)')
    yield eq(MIX, 'COV_motionless_mixer', 'without length the feed is unmixed', 'COV_motionless_mixer(x, Q, K, 0.0)**2', 'Q/K')
    yield eq(DRAG, 'Stokes', 'slow spheres fall after Stokes', "v_terminal(D=dp, rhop=rhol, rho=rhog, mu=mu*1e6, Method='Stokes')", f'{G0}*dp**2*(rhol - rhog)/(18*mu*1e6)')
    yield eq(CORE, 'gravity', 'it falls with height', 'gravity(latitude, 0.0) - gravity(latitude, L)', '3.086e-6*L')
    # fittings
    con = '2*atan((D2 - D)/(2*L))*180/pi'
    for f, ms, fr in (('contraction_conical', ('Rennels', 'Idelchik', 'Crane', 'Swamee', 'Hooper'), 'D2, D'), ('diffuser_conical', ('Rennels', 'Crane', 'Miller', 'Swamee', 'Idelchik', 'Hooper'), 'D, D2')):
        for m in ms:
            yield eq(FIT, f, f'length and angle describe one cone ({m})', f"{f}({fr}, fd=fd, l=L, Re=1e6, method='{m}')", f"{f}({fr}, fd=fd, angle={con}, Re=1e6, method='{m}')")
    for f, fr in (('contraction_conical_Crane', 'D2, D'), ('diffuser_conical_Crane', 'D, D2')):
        yield eq(FIT, f, 'length and angle describe one cone', f'{f}({fr}, l=L)', f'{f}({fr}, angle={con})')
    for f, a in (('bend_rounded_Crane', 'Di, angle'), ('bend_rounded_Miller', 'Di, angle, Re'), ('bend_rounded_Ito', 'Di, angle, Re*10')):
        yield eq(FIT, f, 'a radius is as good as diameters', f'{f}({a}, rc=Di*K)', f'{f}({a}, bend_diameters=K)')
    for m in ('Rennels', 'Crane', 'Crane standard', 'Miller', 'Swamee', 'Ito'):
        yield eq(FIT, 'bend_rounded', f'a radius is as good as diameters ({m})', f"bend_rounded(Di, angle, fd=fd, rc=Di*K, Re=Re, method='{m}')", f"bend_rounded(Di, angle, fd=fd, bend_diameters=K, Re=Re, method='{m}')")
    for f, a in (('contraction_sharp', 'D, D'), ('diffuser_sharp', 'D, D'), ('contraction_beveled', 'D, D, L, 30.0'), ('diffuser_curved', 'D, D, L')):
        yield eq(FIT, f, 'where the diameter does not change nothing is lost', f'{f}({a})', law=zero)
    yield eq(FIT, 'diffuser_conical_staged', 'one stage is a diffuser', 'diffuser_conical_staged(D, D2, [], [L], fd=fd)', 'diffuser_conical(D, D2, l=L, fd=fd)')
    yield eq(FIT, 'entrance_angled', 'at a right angle the entrance is sharp', 'entrance_angled(90.0)', 'entrance_sharp()')
    yield eq(FIT, 'helix', 'a helix without pitch is turns of bends', 'helix(Di, Dc, Di, 2, fd)', '2*helix(Di, Dc, Di, 1, fd)')
    for f in ('K_swing_check_valve_Crane', 'K_diaphragm_valve_Crane', 'K_foot_valve_Crane', 'K_butterfly_valve_Crane'):
        yield eq(FIT, f, 'the friction factor is that of Crane', f'{f}(D)', f'{f}(D, fd=ft_Crane(D))')
    for f, a in (('K_gate_valve_Crane', ', 0.0'), ('K_globe_valve_Crane', ''), ('K_angle_valve_Crane', ''), ('K_lift_check_valve_Crane', ''), ('K_globe_stop_check_valve_Crane', ''), ('K_angle_stop_check_valve_Crane', ''), ('K_ball_valve_Crane', ', 0.0'), ('K_plug_valve_Crane', ', 0.0')):
        yield eq(FIT, f, 'the friction factor is that of Crane', f'{f}(D, D2{a})', f'{f}(D, D2{a}, fd=ft_Crane(D2))')
        yield eq(FIT, f, 'a valve as wide as its pipe loses in proportion to friction', f'{f}(D, D{a}, fd=fd)', f'2*{f}(D, D{a}, fd=fd/2)')
    yield eq(FIT, 'Darby3K', 'three K of a fitting', 'Darby3K(NPS=Di, Re=Re, K1=h, Ki=K, Kd=t)', 'h/Re + K*(1 + t/Di**0.3)')
    # two phases: pure liquid and pure vapour
    one = 'one_phase_dP(m, {}, {}, D, roughness, L)'
    liq, gas = one.format('rhol', 'mul'), one.format('rhog', 'mug')
    std, sig = 'rhol, rhog, mul, mug, D=D, roughness=roughness, L=L', 'rhol, rhog, mul, mug, sigma, D=D, roughness=roughness, L=L'
    for f, a in (('Muller_Steinhagen_Heck', std), ('Friedel', sig), ('Chisholm', std), ('Baroczy_Chisholm', std), ('Gronnerud', std), ('Tran', sig)):
        yield eq(TWO, f, 'pure liquid has the pressure drop of one phase', f'{f}(m, 0.0, {a})', liq)
        if f not in ('Gronnerud', 'Tran'):      # empirical in the ratio of the viscosities
            yield eq(TWO, f, 'pure vapour has the pressure drop of one phase', f'{f}(m, 1.0, {a})', gas)
    for f in ('Beggs_Brill',):
        yield eq(TWO, f, 'uphill and downhill sum to twice level without slip', f'{f}(m, x, rhol, rhog, mul, mug, sigma, P, D, 0.0, roughness, L)', f'{f}(m, x, rhol, rhog, mul, mug, sigma, P, D, 0.0, roughness, L/2)*2')
    xtt = 'Lockhart_Martinelli_Xtt(x, rhol, rhog, mul, mug)'
    yield eq(VOID, 'Lockhart_Martinelli_Xtt', 'exchanging the phases inverts it', xtt, '1/Lockhart_Martinelli_Xtt(1 - x, rhog, rhol, mug, mul)')
    yield eq(VOID, 'homogeneous', 'exchanging the phases complements it', 'homogeneous(x, rhol, rhog)', '1 - homogeneous(1 - x, rhog, rhol)')
    yield eq(VOID, 'McAdams', 'exchanging the phases changes nothing', 'McAdams(x, mul, mug)', 'McAdams(1 - x, mug, mul)')
    yield eq(VOID, 'Cicchitti', 'exchanging the phases changes nothing', 'Cicchitti(x, mul, mug)', 'Cicchitti(1 - x, mug, mul)')
    yield eq(VOID, 'Duckler', 'exchanging the phases changes nothing', 'Duckler(x, mul, mug, rhol, rhog)', 'Duckler(1 - x, mug, mul, rhog, rhol)')
    yield eq(VOID, 'Fourar_Bories', 'exchanging the phases changes nothing', 'Fourar_Bories(x, mul, mug, rhol, rhog)', 'Fourar_Bories(1 - x, mug, mul, rhog, rhol)')
    yield eq(VOID, 'Zivi', 'equal densities slip not', 'Zivi(x, rho, rho)', 'Fauske(x, rho, rho)', 'homogeneous(x, rho, rho)', 'Smith(x, rho, rho)', 'Chisholm_voidage(x, rho, rho)', 'x')
    yield eq(VOID, 'Chisholm_Armand', 'Armand is 0.833 of the homogeneous voidage', 'Armand(x, rhol, rhog)', '0.833*homogeneous(x, rhol, rhog)')
    # atmosphere
    Z = 't*800'
    a = f'ATMOSPHERE_1976({Z})'
    yield eq(ATM, 'ATMOSPHERE_1976', 'the density is that of the pressure and temperature', f'{a}.rho', f'ATMOSPHERE_1976.density({a}.T, {a}.P)', f'{a}.P*0.0289644/(8.31432*{a}.T)')
    yield eq(ATM, 'ATMOSPHERE_1976', 'the other properties are those of the temperature', f'{a}.mu', f'ATMOSPHERE_1976.viscosity({a}.T)')
    yield eq(ATM, 'ATMOSPHERE_1976', 'the conductivity is that of the temperature', f'{a}.k', f'ATMOSPHERE_1976.thermal_conductivity({a}.T)')
    yield eq(ATM, 'ATMOSPHERE_1976', 'the velocity of sound is that of the temperature', f'{a}.v_sonic', f'ATMOSPHERE_1976.sonic_velocity({a}.T)')
    yield eq(ATM, 'ATMOSPHERE_1976', 'gravity is that of the height', f'{a}.g', f'ATMOSPHERE_1976.gravity({Z})')
    yield eq(ATM, 'ATMOSPHERE_1976', 'a warmer atmosphere is as much warmer', f'ATMOSPHERE_1976({Z}, dT=K).T', f'{a}.T + K')
    for b in ('mu: viscosity', 'k: thermal_conductivity', 'v_sonic: sonic_velocity'):
        n, f = b.split(': ')
        yield eq(ATM, 'ATMOSPHERE_1976', f'{n} is that of warmer air', f'ATMOSPHERE_1976({Z}, dT=K).{n}', f'ATMOSPHERE_1976.{f}({a}.T + K)')
    yield eq(ATM, 'ATMOSPHERE_1976', 'the density is that of warmer air', f'ATMOSPHERE_1976({Z}, dT=K).rho', f'ATMOSPHERE_1976.density({a}.T + K, {a}.P)')
    yield eq(ATM, 'ATMOSPHERE_1976', 'pressure falls with the weight of the air', f'd/t: {a}.P', f'-800*{a}.rho*{a}.g')
    # drag
    sph = 'dp, rhol, rhog, mul'
    vt = f'{G0}*dp**2*(rhol - rhog)/(18*mul)'
    tau = '(18*mul/(rhol*dp**2))'
    yield eq(DRAG, 'integrate_drag_sphere', 'the velocity follows its equation of motion', f"d/t: integrate_drag_sphere({sph}, t, V, Method='Stokes')", f"{tau}*({vt} - integrate_drag_sphere({sph}, t, V, Method='Stokes'))")
    yield eq(DRAG, 'integrate_drag_sphere', 'the distance grows with the velocity', f"d/t: integrate_drag_sphere({sph}, t, V, Method='Stokes', distance=True)[1]", f"integrate_drag_sphere({sph}, t, V, Method='Stokes')")
    yield eq(DRAG, 'integrate_drag_sphere', 'the velocity is the same with the distance', f"integrate_drag_sphere({sph}, t, V, Method='Stokes', distance=True)[0]", f"integrate_drag_sphere({sph}, t, V, Method='Stokes')")
    yield eq(DRAG, 'integrate_drag_sphere', 'at the time it takes the velocity is terminal', f"integrate_drag_sphere({sph}, time_v_terminal_Stokes({sph}, V, tol=1e-3), V, Method='Stokes')/({vt})", f'1.0 + (1e-3 if {vt} < V else -1e-3)')
    # the rest
    yield eq(SAFE, 'API520_A_l', 'twice the flow needs twice the area', 'API520_A_l(2*m, rho, P, P2, 0.1)', '2*API520_A_l(m, rho, P, P2, 0.1)')
    yield eq(SAFE, 'API520_A_steam', 'twice the flow needs twice the area', 'API520_A_steam(2*m, T, P)', '2*API520_A_steam(m, T, P)')
    yield eq(SAFE, 'API520_A_g', 'twice the flow needs twice the area', 'API520_A_g(2*m, T, 0.9, MW, k, P, P2)', '2*API520_A_g(m, T, 0.9, MW, k, P, P2)')
    yield eq(SAFE, 'API521_noise', 'sound spreads with the square of the distance', 'API521_noise(m, P, P2, 300.0, L)', 'API521_noise(m, P, P2, 300.0, 10*L) + 20')
    yield eq(VALVE, 'cavitation_index', 'it is one where the vapour pressure is reached', 'cavitation_index(P, P2, P2)', '1.0')
    yield eq(VALVE, 'Reynolds_valve', 'a denser scale', 'Reynolds_valve(mu, Q, D, 0.9, 0.46, K)', '2*Reynolds_valve(2*mu, Q, D, 0.9, 0.46, K)')
    yield eq(VALVE, 'loss_coefficient_piping', 'a valve as wide as its pipe has none', 'loss_coefficient_piping(D, D, D)', law=zero)
    yield eq(PUMP, 'VFD_efficiency', 'full load is the default', 'VFD_efficiency(P)', 'VFD_efficiency(P, 1.0)')
    yield eq(MIX, 'size_tee', 'the ratio of the diameters counts', 'size_tee(Q, Q/3, D, D/20)', 'size_tee(Q, Q/3, D, D/20, 1, 5.0)')
    yield eq(SEP, 'K_separator_Watkins', 'lying separators take a quarter more', 'K_separator_Watkins(x, rhol, rhog, horizontal=True)', '1.25*K_separator_Watkins(x, rhol, rhog)')
    yield eq(SEP, 'K_separator_demister_York', 'lying separators take a quarter more', 'K_separator_demister_York(P, horizontal=True)', '1.25*K_separator_demister_York(P)')
    yield eq(MIX, 'adjust_homogeneity', 'it is the ratio of the logarithms', 'adjust_homogeneity(0.95)', '1.0')


def evaluate(prog, module, expr, base):
    """Result of an expression at every point, or None where it has none or the paths taken there are not told apart."""
    slope, _, expr = expr.rpartition(': ') if expr.startswith('d/') else ('', '', expr)
    names = sorted(set(re.findall(r'(?<![\w.])[A-Za-z_]\w*\b(?=\(|\.[a-z])', expr)) - {'atan'})
    lines = []
    for n in names:
        fi = next((f for m in (module, *MODULES) for f in (prog.func(f'{m}.{n}', False), prog.cls(f'{m}.{n}', False)) if f), None)
        if fi is None:
            return None
        lines.append(f'    from {fi.module.name} import {n}\n')
    args = [a for a in base if re.search(rf'(?<![\w.]){a}(?!\w|\s*=(?!=))', expr) or re.search(rf'={a}\b', expr)]
    src = f'def d({", ".join(args)}):\n    from math import atan, pi\n' + ''.join(lines) + f'    return ({expr},)\n'
    run = laws.drive(prog, module, src, {}, modules=MODULES)
    if run is None or run.over:
        return None
    seen = {}
    for o, out in run.paths:
        nums, other = kn.numbers(run, o)
        if other or nums:
            continue
        ok = holds(o, base)
        if not any(ok):
            continue
        try:
            vals = [kn.dual(x, slope[2:], base)[1] if slope else kn.vector(x, base) for k, x in out.items() if k.split('.')[0] == 'result']
        except (Undecided, TypeError):
            vals = []
        for j in range(K):
            if ok[j]:
                seen.setdefault(j, []).append(vals[0][j] if len(vals) == 1 else None)
    return [v[0] if v and v[0] is not None and all(x is not None and laws.close(x, v[0]) for x in v) else None for v in (seen.get(j) for j in range(K))]


def analyse(prog, job):
    module, subject, text, exprs, law = job
    base = points()
    cols = [evaluate(prog, module, e, base) for e in exprs]
    if None in cols:
        return []
    res = []
    for j, r in enumerate(zip(*cols)):
        if None in r:
            continue
        try:
            res.append(all(laws.close(a, b) for a, b in law(list(r), lambda q, j=j: base[q][j])))
        except (ValueError, ZeroDivisionError, OverflowError, TypeError):
            continue
    return res


def owner(prog, job):
    return prog.func(f'{job[0]}.{job[1]}', False) or prog.cls(f'{job[0]}.{job[1]}', False)


def check(c, prog):
    js = [j for j in jobs() if owner(prog, j) is not None]
    for job, res in zip(js, pmap(lambda j: analyse(prog, j), js)):
        if len(res) < 3:
            c.count('laws_not_decided')
            c.notes.append(f'not decided: {job[1]}: {job[2]}')
            continue
        c.count('laws')
        c.count('points', len(res))
        if res.count(False) >= 2:
            fi = owner(prog, job)
            c.violation('relation', f'{fi.fq}|{job[2]}', fi.loc, f'{fi.name}: it does not hold that {job[2]}')
    c.floor('laws', 170)
    self_tests(c)
    c.rules = ['relation: two calculations which must give one number, or of which one undoes the other, give different formulas on the paths taken at the same inputs']
    c.explanation = ('Expressions over the public functions (Pe = Re Pr, the pressure drop of a pipe as that of its loss coefficient, the pressure falling with the weight of the air, an unknown calculated back from '
                     'the flow, pure phases, exchanged phases, length and angle of one cone, ...) are analysed as drivers with everything they call inlined. The formulas of the paths whose conditions hold at '
                     'given random inputs are compared.')
    c.assumptions = ['inputs within ordinary engineering ranges', 'expressions which end in iteration or interpolation are not decided']


def self_tests(c):
    import os
    import tempfile
    from ..program import Program
    body = 'def Reynolds(V, D, rho=None, mu=None, nu=None):\n    if rho is not None and mu is not None:\n        nu = mu/rho\n    return V*D/nu\ndef Dean(Re, Di, D):\n    if Di < D:\n        return Re*(Di/D)**{}\n    return 0.0\n'
    for n, want in (('0.5', True), ('0.52', False)):
        with tempfile.TemporaryDirectory() as d:
            os.makedirs(d + '/fluids')
            open(d + '/fluids/__init__.py', 'w').close()
            with open(d + '/fluids/core.py', 'w') as fh:
                fh.write(body.format(n))
            prog = Program(d)
            got = [v for j in jobs() if j[1] in ('Dean', 'Reynolds') for v in analyse(prog, j)]
            c.self_test(len(got) == 24 and all(got) == want, f'Dean number with the power {n}: {got}')
