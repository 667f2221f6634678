#!/usr/bin/env python3
"""pyx.py REPO OUT.h: transcribes functions of the Python package gpr to C++ by executing them, unmodified, on recording numbers.
Every arithmetic operation the function performs becomes one C++ statement, every branch on a number an if/else with both sides
executed, so that the generated function is the executed Python function on all paths. What is replaced: numpy's float arrays by
object arrays (zeros, eye, ...), numpy.linalg.inv/det/norm of 3x3 matrices by their definitions, the functions of math by those of numpy, the compiled module GPRpy by recorders
(its pressure and temperature become calls of the C++ functions; its Par records what is assigned). Nothing else is dropped except
the rounding of floats. Which functions are transcribed, and with what arguments, is said in engine/pyx_list.py."""
import sys, types, math, re, importlib
import numpy as np
sys.dont_write_bytecode = True
REPO, OUT = sys.argv[1], sys.argv[2]
sys.path.insert(0, REPO + '/code/python'); sys.setrecursionlimit(10000)
class TooManyPaths(Exception): pass
class Missing(Exception): pass
class Trace:
    def __init__(self, prefix): self.prefix = prefix; self.seg = [[]]; self.conds = []; self.n = 0
    def emit(self, e):
        v = f't{self.n}'; self.n += 1; self.seg[-1].append(f'double {v} = {e};'); return X(v)
    def decide(self, c):
        k = len(self.conds); self.conds.append(c); self.seg.append([])
        if k > 60: raise TooManyPaths()
        return self.prefix[k] if k < len(self.prefix) else True
T = None
def s(a):
    if isinstance(a, X): return a.n
    if isinstance(a, (bool, np.bool_)): return '1.' if a else '0.'
    if isinstance(a, (int, np.integer)): return f'({int(a)}.)' if a < 0 else f'{int(a)}.'
    if isinstance(a, (float, np.floating)):
        a = float(a)
        if a != a or a in (math.inf, -math.inf): raise ValueError('not finite')
        if a == int(a) and abs(a) < 1e15: return s(int(a))
        return f'({a!r})' if a < 0 else repr(a)
    raise TypeError(type(a))
NUM = (int, float, np.integer, np.floating)
def bop(op):
    def f(a, b):
        if not isinstance(b, (X,) + NUM): return NotImplemented
        return T.emit(f'{s(a)} {op} {s(b)}')
    def r(a, b):
        if not isinstance(b, (X,) + NUM): return NotImplemented
        return T.emit(f'{s(b)} {op} {s(a)}')
    return f, r
def cmp(op):
    def f(a, b):
        if not isinstance(b, (X,) + NUM): return NotImplemented
        return T.decide(f'{s(a)} {op} {s(b)}')
    return f
def fun(name): return lambda a: T.emit(f'{name}({s(a)})')
class Outside(Exception): pass # what the recording cannot follow: says nothing about the code
def artefact(ex): # an error that only the recording makes
    m = str(ex)
    if isinstance(ex, (NameError, KeyError, IndexError, ZeroDivisionError)) or any(w in m for w in ('positional argument', 'NoneType', ' = None', 'not callable', 'required argument', 'keyword argument')): return False
    return isinstance(ex, (Outside, TypeError, ValueError, np.linalg.LinAlgError, NotImplementedError)) or "'X'" in m or "'Rec'" in m
class X:
    nz = False
    def __init__(self, n): self.n = n
    __add__, __radd__ = bop('+'); __sub__, __rsub__ = bop('-'); __mul__, __rmul__ = bop('*'); __truediv__, __rtruediv__ = bop('/')
    __lt__, __gt__, __le__, __ge__, __eq__, __ne__ = map(cmp, ('<', '>', '<=', '>=', '==', '!='))
    __hash__ = None
    def __pow__(a, b):
        if not isinstance(b, (X,) + NUM): return NotImplemented
        return T.emit(f'pow({s(a)}, {s(b)})')
    def __rpow__(a, b): return T.emit(f'pow({s(b)}, {s(a)})')
    def __neg__(a): return T.emit(f'-{s(a)}')
    def __pos__(a): return a
    def __abs__(a): return T.emit(f'fabs({s(a)})')
    def __bool__(a): return True if a.nz else T.decide(f'{s(a)} != 0')
    exp, sqrt, log, cos, sin, arctan, cbrt = map(fun, ('exp', 'sqrt', 'log', 'cos', 'sin', 'atan', 'cbrt'))
    def conjugate(a): return a
    sinh, cosh, tanh, tan, arcsin, arccos, log10, log1p, expm1 = map(fun, ('sinh', 'cosh', 'tanh', 'tan', 'asin', 'acos', 'log10', 'log1p', 'expm1'))
    def square(a): return a * a
    def reciprocal(a): return 1. / a
    def no_value(a, *k): raise Outside('a recorded number has no value')
    __float__ = __int__ = __index__ = __complex__ = __round__ = __floordiv__ = __mod__ = __array__ = no_value
    del __array__
# --- parameter objects
FIELDS = {}
def bindings():
    t = open(REPO + '/code/cpp/bindings/bindings.cpp').read()
    for m in re.finditer(r'class_<(\w+)>\(m_classes,\s*"(\w+)"\)(.*?);', t, re.S):
        FIELDS[m.group(2)] = re.findall(r'def_readwrite\(\s*"([^"]+)"', m.group(3))
INT = {'EOS', 'REACTION', 'SOLID', 'POWER_LAW', 'MULTI', 'BINGHAM'}
class Rec:
    """stands for a C++ parameter object: reads give its current fields, writes are recorded"""
    def __init__(self, cls='Par', name='MP', known=None, fresh=False):
        d = self.__dict__; d['_c'], d['_n'], d['_k'], d['_w'], d['_f'] = cls, name, dict(known or {}), {}, fresh
        if cls == 'Par': d['_mp2'] = Rec('Params', name + '.MP2', None, fresh)
    def __getattr__(self, a):
        if a.startswith('__'): raise AttributeError(a)
        if a == 'MP2' and self._c == 'Par': return self._mp2
        if a in self._w: return self._w[a]
        if a in self._k: return self._k[a]
        if a not in FIELDS[self._c]: raise AttributeError(f"'{self._c}' object has no attribute '{a}'")
        if self._f: return np.zeros(3) if a == 'δp' else False if a in INT - {'EOS', 'REACTION'} else 0
        if a == 'δp': return np.array([X(f'{self._n}.δp({i})') for i in range(3)], dtype=object)
        if a in INT: raise AttributeError(f'{a} is not fixed for this transcription')
        return X(f'{self._n}.{a}')
    def __setattr__(self, a, v):
        if a not in FIELDS[self._c]: raise AttributeError(f"'{self._c}' object has no attribute '{a}'")
        if v is None: raise TypeError(f'{a} = None')
        self._w[a] = v
    def out(self):
        l = []
        for a, v in self._w.items():
            if a in INT: l.append((f'{self._n}.{a}', str(int(v))))
            elif a == 'δp': l += [(f'{self._n}.δp({i})', s(v[i])) for i in range(3)]
            else: l.append((f'{self._n}.{a}', s(v)))
        return l + (self._mp2.out() if self._c == 'Par' else [])
CREATED = []
def new_par():
    CREATED.append(Rec(fresh=True)); return CREATED[-1]
def stub_module():
    m = types.ModuleType('GPRpy'); ns = types.SimpleNamespace
    def call(f): return lambda Q, MP: T.emit(f'py_{f}({qptr(Q)}, {len(Q)}, {MP._n})')
    m.classes = ns(Par=new_par, Params=lambda: Rec('Params', 'MP2', fresh=True))
    m.system = ns(variables=ns(pressure=call('pressure'), temperature=call('temperature')))
    m.options = ns(NV=lambda: 16)
    sys.modules['GPRpy'] = m
def qptr(Q):
    v = f'q{T.n}'; T.n += 1; T.seg[-1].append(f'double {v}[] = {{{", ".join(map(s, Q))}}};'); return v
# --- numpy on objects
def o_zeros(shape, dtype=None, **k):
    a = np.empty(shape, dtype=object); a.fill(0.); return a
def o_eye(n): a = o_zeros((n, n)); a[range(n), range(n)] = 1.; return a
def o_det(M): return M[0][0] * (M[1][1] * M[2][2] - M[1][2] * M[2][1]) - M[0][1] * (M[1][0] * M[2][2] - M[1][2] * M[2][0]) + M[0][2] * (M[1][0] * M[2][1] - M[1][1] * M[2][0])
def o_inv(M):
    d = o_det(M); r = o_zeros((3, 3))
    for i in range(3):
        for j in range(3):
            a, b, c, e = (j + 1) % 3, (j + 2) % 3, (i + 1) % 3, (i + 2) % 3
            r[i, j] = (M[a][c] * M[b][e] - M[a][e] * M[b][c]) / d
    return r
def o_norm(M): return np.sqrt(sum(x * x for x in np.asarray(M).ravel()))
def o_ones(shape, **k): a = o_zeros(shape); a.fill(1.); return a
def o_full(shape, v, **k): a = o_zeros(shape); a[...] = v; return a
def o_trace(M): return sum(np.asarray(M)[i][i] for i in range(len(M)))
def m1(f): return lambda a: getattr(a, f)() if isinstance(a, X) else getattr(np, f)(a)
def m_hypot(*a): return np.sqrt(sum(x * x for x in a))
def m_prod(a): r = 1.; [r := r * x for x in a]; return r
def m_sum(a): r = 0.; [r := r + x for x in a]; return r
def o_abs(a): return abs(a)
def o_fmax(a, b, **k): return np.maximum(a, b)
def o_fmin(a, b, **k): return np.minimum(a, b)
def o_power(a, b): return a ** b
SUBST = [(np.zeros, o_zeros), (np.empty, o_zeros), (np.ones, o_ones), (np.full, o_full), (np.eye, o_eye), (np.identity, o_eye), (np.linalg.det, o_det), (np.linalg.inv, o_inv), (np.linalg.norm, o_norm), (np.hypot, m_hypot), (np.fmax, o_fmax), (np.fmin, o_fmin), (np.float_power, o_power),
         (math.exp, m1('exp')), (math.sqrt, m1('sqrt')), (math.log, m1('log')), (math.cos, m1('cos')), (math.sin, m1('sin')), (math.tan, m1('tan')), (math.atan, m1('arctan')), (math.tanh, m1('tanh')), (math.pow, o_power), (math.fabs, o_abs), (math.hypot, m_hypot), (math.prod, m_prod), (math.fsum, m_sum)]
class Proxy: # a module with some functions replaced
    def __init__(self, m): self._m = m
    def __getattr__(self, k): return subst(getattr(self._m, k))
def subst(v):
    if v is np or v is np.linalg or v is math: return Proxy(v)
    for a, b in SUBST:
        if v is a: return b
    return v
def get(m, f):
    try: return getattr(importlib.import_module(m), f)
    except Exception as ex:
        e = f'{m}.{f}: {type(ex).__name__}: {ex}'
        def g(*a, **k): raise Missing(e)
        return g
class Mod: # attributes looked up late, so that one missing function costs only its own contracts
    def __init__(self, n): self._n = n
    def __getattr__(self, f): return get(self._n, f)
def patch(mod):
    for k, v in list(vars(mod).items()):
        w = subst(v)
        if w is not v: setattr(mod, k, w)
# --- transcription
def args_of(spec):
    out, sig = [], []
    for name, shape in spec:
        if callable(shape): out.append(shape()); continue
        if shape is None: sig.append(f'double {name}'); out.append(X(name))
        elif shape == 'nz': sig.append(f'double {name}'); out.append(X(name)); out[-1].nz = True # precondition: not zero
        elif isinstance(shape, Rec): sig.append(f'{shape._t if hasattr(shape, "_t") else ("Par" if shape._c == "Par" else shape._c)} &{shape._n}'); out.append(shape)
        else:
            n = int(np.prod(shape)); sig.append(f'const double *{name}'); a = np.array([X(f'{name}[{i}]') for i in range(n)], dtype=object).reshape(shape); out.append(a)
    return out, ', '.join(sig)
def flat(r):
    if r is None: raise ValueError('returned None')
    if isinstance(r, (tuple, list)): return [y for x in r for y in flat(x)]
    if isinstance(r, np.ndarray): return list(r.ravel())
    return [r]
def transcribe(name, spec, body):
    """body(*args): runs the function; its result is the generated function's output (or the assignments of a new Par)"""
    global T
    paths = [0]; size = []
    def build(prefix, ind):
        global T
        paths[0] += 1
        if paths[0] > 400: raise TooManyPaths(name)
        T = Trace(prefix); CREATED.clear()
        a, _ = args_of(spec); err = None
        try: r = body(*a)
        except (TooManyPaths, Missing): raise
        except Exception as ex:
            if artefact(ex): raise Outside(f'{type(ex).__name__}: {ex}')
            err = f'{type(ex).__name__}: {ex}'; r = None
        k = len(prefix); pad = '  ' * ind; o = [pad + x for x in T.seg[k]]
        if len(T.conds) > k:
            c = T.conds[k]
            return o + [pad + f'if ({c}) {{'] + build(prefix + [True], ind + 1) + [pad + '} else {'] + build(prefix + [False], ind + 1) + [pad + '}']
        if err is None and r is None: err = 'returned None'
        if err is not None: return o + [pad + 'return py_raised("' + err.replace('\\', '/').replace('"', "'").replace('\n', ' ') + '");']
        if isinstance(r, Rec): return o + [pad + f'MP.{x.split(".", 1)[1]} = {v};' for x, v in r.out()] + [pad + 'return true;']
        l = flat(r); size.append(len(l))
        return o + [pad + f'ret[{i}] = {s(x)};' for i, x in enumerate(l)] + [pad + 'return true;']
    _, sig = args_of(spec)
    code = build([], 1)
    return f'static bool py_{name}({sig}{", " if sig else ""}{"Par &MP" if name.startswith("material") else "double *ret"}) {{\n' + '\n'.join(code) + '\n}\n', paths[0]
def main():
    bindings(); stub_module()
    src = open(__file__.replace('pyx.py', 'pyx_list.py')).read(); env = dict(globals()); todo = []; env['todo'] = todo
    o = ['// generated by engine/pyx.py from code/python/gpr; do not edit\n#pragma once\n']; names = []
    try: exec(compile(src, 'pyx_list.py', 'exec'), env)
    except Exception as ex: o.append(f'// import: {type(ex).__name__}: {ex}\n'); print('import:', ex)
    for n, spec, body in todo:
        try: t, k = transcribe(n, spec, body); o.append(t); names.append(n)
        except Exception as ex: # outside the transcription: the contracts on it fall away (reported)
            msg = f'{n}: {type(ex).__name__}: {ex}'; sig = args_of(spec)[1]; print('ABSENT', msg)
            o.append(f'static bool py_{n}({sig}{", " if sig else ""}{"Par &MP" if n.startswith("material") else "double *ret"}) {{ return py_absent("{n}"); }}\n')
    open(OUT, 'w').write('\n'.join(o)); print(len(names), 'functions transcribed')
if __name__ == '__main__': main()
