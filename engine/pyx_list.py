# What is transcribed: todo.append((name, [(argument, shape or None or parameter object), ...], function of the arguments)).
def mod(n):
    try: patch(importlib.import_module(n))
    except Exception as ex: print('ABSENT', n, type(ex).__name__, ex)
    return Mod(n)
mg, eos, state, shear, deriv_, hyp, sources, speeds = [mod('gpr.vars.' + x) for x in ('mg', 'eos', 'state', 'shear', 'derivatives', 'hyp', 'sources', 'wavespeeds')]
fn, structures, objects = [mod('gpr.misc.' + x) for x in ('functions', 'structures', 'objects')]
R, Pp, A33, V3 = ('ρ', None), ('p', None), ('A', (3, 3)), ('v', (3,))
LAWS = {'SG': 0, 'SMG': 1, 'JWL': 2, 'CC': 3, 'GR': 4}
def MPof(law, **k): return ('MP', Rec('Par', 'MP', dict({'EOS': LAWS[law], 'SOLID': False, 'POWER_LAW': False, 'BINGHAM': False, 'MULTI': False, 'REACTION': -1}, **k)))
for L in LAWS:
    M = MPof(L)
    for f in ('Γ_MG', 'p_ref', 'e_ref', 'dΓ_MG', 'dp_ref', 'de_ref', 'φ', 'dedp', 'dTdp'): todo.append((f'{f}_{L}', [R, M], getattr(mg, f)))
    for f in ('internal_energy', 'temperature', 'dedρ', 'dTdρ'): todo.append((f'{f}_{L}', [R, Pp, M], getattr(mg, f)))
    todo.append((f'pressure_{L}', [R, ('e', None), M], mg.pressure))
    for f in ('c_s2', 'dc_s2dρ', 'C_0', 'dC_0dρ'): todo.append((f'{f}_{L}', [R, M], getattr(shear, f)))
    todo.append((f'E_2A_{L}', [R, A33, M], eos.E_2A))
    todo.append((f'dEdρ_{L}', [R, Pp, A33, M], deriv_.dEdρ)); todo.append((f'dEdp_{L}', [R, M], deriv_.dEdp))
    for f in ('dEdA', 'dEdA_s'): todo.append((f'{f}_{L}', [R, A33, M], getattr(deriv_, f)))
    for n, kw in (('', {}), ('A', {'A': 1}), ('AJ', {'A': 1, 'J': 1}), ('Al', {'A': 1, 'λ': 1}), ('AJl', {'A': 1, 'J': 1, 'λ': 1})):
        spec = [R, Pp, V3, M] + ([A33] if 'A' in kw else []) + ([('J', (3,))] if 'J' in kw else []) + ([('λ', None)] if 'λ' in kw else [])
        keys = [k for k in ('A', 'J', 'λ') if k in kw]
        todo.append((f'Cvec{n}_{L}', spec, lambda r, p, v, m, *a, keys=keys: structures.Cvec(r, p, v, m, **dict(zip(keys, a)))))
        tot = lambda r, p, v, m, *a, keys=keys: eos.total_energy(r, p, v, *[dict(zip(keys, a)).get(k) for k in ('A', 'J', 'λ')], m)
        todo.append((f'total{n}_{L}', spec, tot))
        pr = lambda r, p, v, m, *a, keys=keys: state.pressure(r, p, v, *[dict(zip(keys, a)).get(k) for k in ('A', 'J', 'λ')], m)
        todo.append((f'statep{n}_{L}', spec, pr))
    todo.append((f'c_0_{L}', [R, Pp, A33, M], speeds.c_0))
    todo.append((f'stateT_{L}', [R, Pp, M], state.temperature))
# quantities that do not depend on the law
M = MPof('GR')
todo += [('E_2J', [('J', (3,)), M], eos.E_2J), ('E_3', [V3], eos.E_3), ('E_R', [('λ', None), M], eos.E_R), ('dEdJ', [('J', (3,)), M], deriv_.dEdJ),
         ('sigma', [R, A33, M], state.sigma), ('dsigmadA', [R, A33, M], state.dsigmadA), ('dsigmadρ', [R, A33, M], state.dsigmadρ), ('Sigma', [Pp, R, A33, M], state.Sigma),
         ('heat_flux', [('T', None), ('J', (3,)), M], state.heat_flux), ('c_h', [R, ('T', None), M], speeds.c_h), ('theta2inv', [R, ('T', None), M], sources.theta2inv), ('f_δp', [M], sources.f_δp)]
for d in range(3): todo.append((f'dsigmadAdd_{d}', [R, A33, M], lambda r, A, m, d=d: state.dsigmadAdd(r, A, d, m)))
for f in ('tr', 'det3', 'L2_2D', 'sigma_norm', 'I_1', 'I_2', 'I_3', 'dev', 'GdevG', 'gram', 'gram_rev', 'lim'):
    todo.append((f, [('x', None)] if f == 'lim' else [A33], getattr(fn, f)))
todo += [('AdevG', [A33, ('G', (3, 3))], fn.AdevG), ('L2_1D', [V3], fn.L2_1D), ('reorder14', [('x', (14,))], fn.reorder), ('reorder17', [('x', (17,))], fn.reorder)]
# relaxation
for n, k in (('fluid', {}), ('power', {'POWER_LAW': True}), ('bingham', {'BINGHAM': True}), ('elastic', {'SOLID': True}), ('plastic', {'SOLID': True, 'POWER_LAW': True})):
    todo.append((f'theta1inv_{n}', [R, A33, MPof('GR', **k)], sources.theta1inv))
todo += [('K_arr', [R, ('λ', None), ('T', None), M], sources.K_arr), ('K_dis', [R, ('λ', None), ('T', None), M], sources.K_dis), ('K_ing', [R, ('λ', None), Pp, M], sources.K_ing)]
# accessors of a state; lengths of the state vector as they occur
def acc(nm, cα, n, f, **k): todo.append((f'State_{nm}', [('Q', (n,)), MPof('GR', **dict({} if cα else {'cα2': 0}, **k))], lambda Q, m: f(structures.State(Q, m))))
for f in ('p', 'T', 'σ', 'dσdρ', 'dσdA', 'Σ', 'dEdρ', 'dEdp', 'dEdA', 'ψ', 'dTdρ', 'dTdp', 'θ2_1', 'f_body', 'G'): acc(f, False, 16, lambda P, f=f: getattr(P, f)())
for f in ('ρ', 'E', 'v', 'A'): acc(f, False, 16, lambda P, f=f: getattr(P, f))
for n, k in (('fluid', {}), ('power', {'POWER_LAW': True}), ('elastic', {'SOLID': True}), ('plastic', {'SOLID': True, 'POWER_LAW': True})): acc('θ1_' + n, False, 16, lambda P: P.θ1_1(), **k)
acc('plastic_deformation', False, 16, lambda P: P.plastic_deformation(), SOLID=True, POWER_LAW=True)
acc('λ', False, 17, lambda P: P.λ); acc('Jλ', True, 20, lambda P: [P.J, P.λ]); acc('q', True, 19, lambda P: P.q()); acc('H', True, 19, lambda P: P.H())
for n, c in (('d', 0), ('a', 1), ('i', 2)): acc('K_' + n, False, 17, lambda P: P.K(), REACTION=c)
# hyperelastic states
class Hyp(Rec): _t = 'Hyp'
FIELDS['Hyp'] = ['ρ0', 'α', 'β', 'γ', 'cv', 'T0', 'K0', 'b02']
H = ('HYP', Hyp('Hyp', 'HYP'))
I3a, F33, Sa = [('I1', None), ('I2', None), ('I3', None)], ('F', (3, 3)), ('S', None)
todo += [('U_1', [I3a[2], H], hyp.U_1), ('U_2', [I3a[2], Sa, H], hyp.U_2), ('W', I3a + [H], hyp.W), ('total_energy_hyp', [A33, Sa, V3, H], hyp.total_energy_hyp),
         ('pressure_hyp', [R, A33, Sa, H], hyp.pressure_hyp), ('Sigma_hyp', [R, A33, Sa, H], hyp.Sigma_hyp), ('temperature_hyp', [Sa, A33, H], hyp.temperature_hyp),
         ('entropy_hyp', [('E', None), A33, V3, H], hyp.entropy_hyp), ('Cvec_hyp', [F33, Sa, V3, H], hyp.Cvec_hyp)]
def mk_hyp(*a):
    h = objects.hyperelastic_params(**dict(zip(('ρ0', 'α', 'β', 'γ', 'cv', 'T0', 'b0', 'c0'), a))); return [getattr(h, k) for k in FIELDS['Hyp']]
todo.append(('hyperelastic_params', [(k, None) for k in ('ρ0', 'α', 'β', 'γ', 'cv', 'T0', 'b0', 'c0')], mk_hyp))
# material parameters: name, fixed arguments, symbolic arguments
def material(nm, fixed, syms, nz=True): todo.append((f'material_{nm}', [(a, 'nz' if nz else None) for a in syms.split()], lambda *a: objects.material_params(**dict(fixed, **dict(zip(syms.split(), a))))))
material('gas', {'EOS': 'sg'}, 'ρ0 cv γ b0 cα μ Pr')
material('any', {'EOS': 'sg'}, 'ρ0 cv Tref γ pINF b0 μ', nz=False) # zeros included
material('liquid', {'EOS': 'sg'}, 'ρ0 cv Tref γ pINF b0 cα κ μ')
material('elastic_smg', {'EOS': 'smg'}, 'ρ0 cv c0 Γ0 s b0')
material('plastic_smg', {'EOS': 'smg'}, 'ρ0 cv c0 Γ0 s b0 σY τ0 n')
material('elastic_gr', {'EOS': 'gr'}, 'ρ0 cv Tref c0 α β γ b0 cα κ')
material('plastic_gr', {'EOS': 'gr'}, 'ρ0 cv Tref c0 α β γ b0 σY τ0 n')
material('elastic_jwl', {'EOS': 'jwl'}, 'ρ0 cv Γ0 A B R1 R2 b0')
material('elastic_cc', {'EOS': 'cc'}, 'ρ0 cv Γ0 A B R1 R2 b0')
material('power_fluid', {'EOS': 'sg'}, 'ρ0 cv γ b0 μ n')
material('bingham', {'EOS': 'sg'}, 'ρ0 cv γ b0 μ σY')
material('inviscid', {'EOS': 'sg'}, 'ρ0 cv γ')
material('reactive_d', {'EOS': 'sg', 'REACTION': 'd'}, 'ρ0 cv γ b0 μ Qc Kc Ti')
material('reactive_a', {'EOS': 'cc', 'REACTION': 'a'}, 'ρ0 cv Γ0 A B R1 R2 b0 μ Qc Bc Ea Rc')
material('reactive_i', {'EOS': 'jwl', 'REACTION': 'i'}, 'ρ0 cv Γ0 A B R1 R2 b0 Qc I G1 G2 a b c d e g x y z φI φG1 φG2')
material('vacuum', {'EOS': 'vac', 'ρ0': 0}, '')
todo.append(('material_force', [(a, None) for a in 'ρ0 cv γ b0 μ'.split()] + [('δp', (3,))], lambda r, c, g, b, m, d: objects.material_params(EOS='sg', ρ0=r, cv=c, γ=g, b0=b, μ=m, δp=d)))
TWO = {'sg': 'γ_2 pINF_2', 'smg': 'c0_2 Γ0_2 s_2', 'gr': 'c0_2 α_2 β_2 γ_2', 'jwl': 'Γ0_2 A_2 B_2 R1_2 R2_2', 'cc': 'Γ0_2 A_2 B_2 R1_2 R2_2'}
for e2 in TWO: material('two_' + e2, {'EOS': 'jwl', 'MULTI': True, 'EOS_2': e2, 'REACTION': 'a'}, 'ρ0 cv Γ0 A B R1 R2 b0 μ Qc Bc Ea Rc cv_2 Tref_2 b0_2 μ_2 ' + TWO[e2])
material('two_plain', {'EOS': 'jwl', 'MULTI': True, 'EOS_2': 'jwl', 'REACTION': 'a'}, 'ρ0 cv Γ0 A B R1 R2 b0 cα κ Qc Bc Ea Rc cv_2 Γ0_2 A_2 B_2 R1_2 R2_2')
