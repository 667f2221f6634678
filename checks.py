# What each property's check runs.
CONFIGS = {
    'base': {},
    'T': {'THERMAL': 'true'},
    'M': {'MULTI': 'true'},
    'TM': {'THERMAL': 'true', 'MULTI': 'true'},
    'N3': {'N': '3'},
    'ROT': {'ROTATE_DISTORTION': 'true'},
    'RM': {'ROTATE_DISTORTION': 'true', 'MULTI': 'true'},
    'ST': {'RIEMANN_STICK': 'true'},
    'L1': {'LSET': '1'},
    'NC': {'NO_CORNERS': 'false'},
    'DG2': {'DG_IT': '2', 'DG_TOL': '0.25'},
}
TRUSTED = [
    'engine/: the symbolic scalar, path enumeration, polynomial normal form and z3 glue (this framework)',
    'z3 4.8.12, GMP, libquadmath, g++ 13.3 front end and code generator',
    'machine arithmetic treated as exact real arithmetic; decimal literals read as the rational they print as',
]
CHECKS = {
    'C01': {'harness': [{'name': 'c01_state'}], 'configs': ['base', 'TM']},
    'C02': {'harness': [{'name': 'c02_deriv'}], 'configs': ['base']},
    'C03': {'harness': [{'name': 'c03_system'}], 'configs': ['base', 'TM']},
    'C04': {'harness': [{'name': 'c04_flux'}], 'configs': ['base', 'TM']},
    'C05': {'harness': [{'name': 'c05_numflux'}, {'name': 'c05_laws', 'stubs': ['contract_system']}], 'configs': ['base']},
    'C06': {'level': 'other', 'harness': [{'name': 'c06_fv', 'stubs': ['contract_system', 'contract_fluxes']}, {'name': 'c06_free', 'stubs': ['contract_system', 'contract_consistent']}], 'configs': ['base'], 'explanation': 'all reconstructed data, states, steps and spacings are arbitrary reals and system and numerical fluxes arbitrary functions (contracts); masks and grid shapes are enumerated', 'bounds': 'lines of up to 3 cells with every mask, planes of up to 3x2 and 2x3 cells with masks as listed in the harness'},
    'C07': {'harness': [{'name': 'c07_coeffs'}, {'name': 'c07_laws'}, {'name': 'c07_weno', 'stubs': ['contract_coeffs']}], 'configs': ['base']},
    'C08': {'harness': [{'name': 'c08_basis'}], 'configs': ['base', 'N3']},
    'C09': {'harness': [{'name': 'c09_weak', 'stubs': ['contract_system'], 'configs': ['base']}, {'name': 'c09_predictor', 'stubs': ['contract_dg'], 'configs': ['DG2'], 'random': 30}], 'configs': ['base', 'DG2']},
    'C10': {'level': 'other', 'harness': [{'name': 'c10_boundaries'}], 'configs': ['base'], 'explanation': 'cell data are arbitrary; every pair of conditions per axis; the grid shapes are listed', 'bounds': 'lines of N and N+3 cells, planes of N x N+1, N+1 x N and N+2 x N+2 cells'},
    'C11': {'level': 'other', 'harness': [{'name': 'c11_mask'}], 'configs': ['base'], 'explanation': 'every mask of the listed grids', 'bounds': 'lines of up to 7 cells, planes of up to 5x4 cells'},
    'C12': {'level': 'other', 'openmp': True, 'harness': [{'name': 'c12_threads', 'stubs': ['contract_stepper'], 'always_stubbed': True, 'random': 5, 'configs': ['base']}, {'name': 'c12_step', 'stubs': ['contract_parts'], 'always_stubbed': True, 'random': 5, 'configs': ['base']}, {'name': 'c12_rows', 'stubs': ['contract_coeffs'], 'random': 30}, {'name': 'c12_fvrows', 'stubs': ['contract_system', 'contract_fluxes'], 'random': 30, 'configs': ['base']}], 'configs': ['base', 'NC'], 'explanation': 'all data and masks are arbitrary and callees replaced by contracts; OpenMP regions run thread by thread, in both orders, on a simulated run-time', 'bounds': 'listed numbers of rows and threads'},
    'C13': {'level': 'other', 'harness': [{'name': 'c13_timestep', 'stubs': ['contract_system']}], 'configs': ['base'], 'explanation': 'all states, speeds (by contract), spacings, times and step counts are arbitrary reals; masks and materials enumerated', 'bounds': 'up to 3 cells and 3 materials as listed by unit'},
    'C14': {'level': 'other', 'harness': [{'name': 'c14_assembly'}], 'configs': ['base', 'M'], 'explanation': 'all data arbitrary; get_material_index and limit_concentration proved; assembly runs on listed numbers of cells and materials', 'bounds': 'up to 3 cells and 3 materials as listed by unit'},
    'C15': {'level': 'other', 'harness': [{'name': 'c15_distance', 'random': 4}], 'configs': ['base'], 'explanation': 'units whose names do not start with b_ are proved for all values; the others run the real march on whole grids with one crossing anywhere in its cell', 'bounds': 'whole marches: lines of up to 8 cells, planes of up to 7x7 cells, square cells; queue: any values, up to 4 entries'},
    'C16': {'level': 'other', 'harness': [{'name': 'c16_interface', 'random': 10}, {'name': 'c16_ghost', 'stubs': ['contract_leftstar'], 'random': 2}], 'configs': ['base', 'L1'], 'explanation': 'units whose names do not start with b_ are proved; the others run the real filling on listed shapes of the interface with arbitrary states, the interface solver an arbitrary function of its arguments', 'bounds': 'lines of up to 26 cells, planes of up to 7x7 cells, up to 3 materials'},
    'C17': {'harness': [{'name': 'c17_distortion'}], 'configs': ['base']},
    'C18': {'harness': [{'name': 'c18_ode', 'configs': ['base', 'T']}, {'name': 'c18_split', 'stubs': ['contract_reaction', 'contract_system'], 'configs': ['base', 'M']}], 'configs': ['base', 'T', 'M']},
    'C19': {'harness': [{'name': 'c19_frame', 'configs': ['base', 'T']}, {'name': 'c19_fan', 'stubs': ['contract_state'], 'configs': ['base', 'T']}, {'name': 'c19_star', 'stubs': ['contract_constraints', 'contract_state'], 'random': 50}, {'name': 'c19_settled', 'random': 300}, {'name': 'c19_loop', 'stubs': ['contract_star'], 'always_stubbed': True, 'random': 10, 'configs': ['base']}], 'configs': ['base', 'T', 'ST']},
    'C20': {'level': 'other', 'harness': [{'name': 'c20_newton', 'random': 10}, {'name': 'c20_loop', 'stubs': ['contract_lgmres'], 'always_stubbed': True, 'random': 2}], 'configs': ['base'], 'explanation': 'units whose names do not start with b_ are proved for all values (function under solution an arbitrary function); the others run the real line search and Newton loop on scripted residuals, the linear solver by contract', 'bounds': 'line search: scripts of up to 8 residuals over 6 levels; loop: 1 to 3 unknowns, scripts of up to 20 residuals; linear solver: 2 and 3 unknowns, one inner direction'},
    'C21': {'harness': [{'name': 'c21_waves'}], 'configs': ['base', 'T']},
    'C22': {'level': 'other', 'harness': [{'name': 'c22_loop', 'stubs': ['contract_iterator'], 'always_stubbed': True, 'random': 5}], 'configs': ['base', 'RM'], 'explanation': 'the time loop is executed on arbitrary data with every function it calls replaced by an arbitrary function of all it may read; the scripts of step sizes, and hence the numbers of steps, are listed in the harness', 'bounds': 'grids of 2 cells, 3 materials, up to 128 steps of prescribed sizes'},
    'C24': {'harness': [{'name': 'c24_mixture', 'stubs': ['contract_solver'], 'always_stubbed': True}, {'name': 'c24_deriv', 'stubs': ['contract_mixture'], 'always_stubbed': True}], 'configs': ['M']},
    'C23': {'harness': [{'name': 'c23_python', 'random': 60}], 'pygen': True, 'configs': ['base', 'M', 'TM']},
}
