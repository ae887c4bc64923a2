"""The Python side of the simulator: runs in the interpreter embedded in simrun."""
import sys, os, io
from unittest.mock import MagicMock

import re as _re
class _Draw:
    """takes the place of matplotlib and plotly: keeps what is drawn"""
    def clear(self): self.curves = []; self.contours = []; self.log = False; self.bottom = None
    def take_plots(self): return self.curves
    def take_contour(self): return self.contours[0] if len(self.contours) == 1 else (None, (), {})
_sim_draw = _Draw(); _sim_draw.clear()
class _Axes(MagicMock):
    def plot(self, x, y, fmt='', **kw):
        import numpy as np
        y = np.array(y, dtype=float); x = np.array(x, dtype=float)
        if y.ndim == 2:
            for i in range(y.shape[1]): _sim_draw.curves.append((x, y[:, i].copy(), fmt, dict(kw)))
        else: _sim_draw.curves.append((x, y, fmt, dict(kw)))
        return [MagicMock()]
    def semilogy(self, *a, **k): _sim_draw.log = True; return self.plot(*a, **k)
    def _contour(self, k, a, kw):
        import numpy as np
        _sim_draw.contours.append((k, tuple(np.array(x) if hasattr(x, 'shape') else x for x in a), dict(kw))); return MagicMock()
    def contourf(self, *a, **k): return self._contour('contourf', a, k)
    def contour(self, *a, **k): return self._contour('contour', a, k)
    def yscale(self, v, **k): _sim_draw.log = v == 'log'
    set_yscale = yscale
    def set_ylim(self, bottom=None, top=None, **k):
        if isinstance(bottom, (tuple, list)): bottom = bottom[0]
        if 'ymin' in k: bottom = k['ymin']
        if bottom is not None: _sim_draw.bottom = bottom
    ylim = set_ylim
    def gca(self, **k): return self
    def subplots(self, *a, **k): return MagicMock(), self
    def subplot(self, *a, **k): return self
class _Fig(MagicMock):
    pass
def _figure(data=None, *a, **k):
    f = _Fig(); f._sim_data = []
    def put(t, *a, **k): f._sim_data.extend(t if isinstance(t, (list, tuple)) and not (len(t) == 2 and isinstance(t[0], str)) else [t]); return f
    f.add_trace = put; f.add_traces = put
    if data is not None: put(list(data))
    return f
_plt = _Axes(); _go = MagicMock(); _go.Figure = _figure
def _trace(n): return lambda arg=None, **k: (n, {a: (b.copy() if hasattr(b, 'copy') else b) for a, b in k.items()})
_go.Surface = _trace('Surface'); _go.Scatter3d = _trace('Scatter3d')
_mpl = MagicMock(); _mpl.pyplot = _plt; _ply = MagicMock(); _ply.graph_objects = _go
sys.modules.update({'matplotlib': _mpl, 'matplotlib.pyplot': _plt, 'plotly': _ply, 'plotly.graph_objects': _go})
sys.stderr = io.StringIO()
import booz_xform, booz_xform._cli
def _sim_cli(args):
    # what the console script does: sys.exit(main())
    sys.argv = ['xbooz_xform'] + [os.fsdecode(a) for a in args]
    try:
        try: rc = booz_xform._cli.main()
        except SystemExit as e: rc = e.code
        rc = 0 if rc is None else rc if isinstance(rc, int) else 1
    except BaseException as e:
        rc = 1
    try: sys.stdout.flush()
    except BaseException: rc = 120
    return rc & 255

# the class, used from Python: each call returns 0 or the kind of error
import numpy as _np, struct as _struct
_sim_o = {}; _sim_held = {}; _sim_blob = b''
def _sim_form(x, how):
    """the same numbers as another kind of Python object"""
    how = how % 6
    if how == 1: return _np.ascontiguousarray(x)
    if how == 2:
        y = _np.zeros(tuple(2 * n for n in x.shape), dtype=x.dtype); y[tuple(slice(None, None, 2) for n in x.shape)] = x
        return y[tuple(slice(None, None, 2) for n in x.shape)]
    if how == 3 and x.size: return x.tolist()
    if how == 4 and x.dtype.kind == 'i': return x.astype(_np.int64)
    if how == 5:
        y = x.copy(order='F'); y.setflags(write=False); return y
    return _np.asfortranarray(x)
def _sim_unpack(blob):
    """rows, cols and numbers of every array in blob: name\0 kind rows cols doubles"""
    i = 0
    while i < len(blob):
        j = blob.index(b'\0', i); name = blob[i:j].decode(); kind, r, c = _struct.unpack_from('<iii', blob, j + 1); i = j + 13
        v = _np.frombuffer(blob, dtype='<f8', count=r * c, offset=i).copy(); i += 8 * r * c
        if kind == 5: yield name, bool(v[0])
        elif kind == 0: yield name, int(v[0])
        elif kind == 1: yield name, float(v[0])
        elif kind == 2: yield name, v.astype(_np.int32)
        elif kind == 3: yield name, v
        else: yield name, v.reshape((c, r)).T
def _sim_bytes(x):
    """kind, rows, cols and bytes of an attribute, as the C++ member has them"""
    if isinstance(x, bool): return _struct.pack('<iiii', 5, 1, 1, 1) + (b'\1' if x else b'\0')
    if isinstance(x, int): return _struct.pack('<iiii', 0, 1, 1, 4) + _struct.pack('<i', x)
    if isinstance(x, float): return _struct.pack('<iiii', 1, 1, 1, 8) + _struct.pack('<d', x)
    if not isinstance(x, _np.ndarray): raise TypeError(type(x))
    if x.dtype == _np.int32 and x.ndim == 1: k = 2
    elif x.dtype == _np.float64 and x.ndim == 1: k = 3
    elif x.dtype == _np.float64 and x.ndim == 2: k = 4
    else: raise TypeError((x.dtype, x.ndim))
    d = x.tobytes(order='F')
    return _struct.pack('<iiii', k, x.shape[0], x.shape[1] if x.ndim == 2 else 1, len(d)) + d
def _sim_call(a):
    global _sim_blob
    op = a[0]; how = int(a[1]); n = a[2]
    if op == 'plot': return _sim_plot(a)
    if op == 'new': _sim_o[n] = booz_xform.Booz_xform(); return
    if op == 'del': del _sim_o[n]; return
    if op == 'held':
        w = []
        for (t, f), (x, b) in _sim_held.items():
            if _sim_bytes(x) != b: w.append(f)
        _sim_blob = ' '.join(w).encode(); return
    o = _sim_o[n]
    if op == 'read':
        if a[4] == '0' and how % 2: o.read_wout(a[3])
        elif how % 3 == 0: o.read_wout(a[3], bool(int(a[4])))
        elif how % 3 == 1: o.read_wout(filename=a[3], flux=bool(int(a[4])))
        else: o.read_wout(a[3], flux=bool(int(a[4])))
    elif op == 'run': o.run()
    elif op == 'write': o.write_boozmn(a[3])
    elif op == 'readb': o.read_boozmn(a[3])
    elif op == 'set': setattr(o, a[3], _np.int64(a[4]) if how % 2 else int(a[4]))
    elif op == 'surfs':
        v = [int(x) for x in a[3].split(',') if x]
        if how % 4 == 1: v = _np.array(v, dtype=int)
        elif how % 4 == 2: v = _np.array(v, dtype=_np.int32)
        elif how % 4 == 3: v = tuple(v)
        o.compute_surfs = v
    elif op == 'fill':
        for k, v in _sim_unpack(_sim_blob): setattr(o, k, _sim_form(v, how) if isinstance(v, _np.ndarray) else v)
    elif op == 'initv':
        d = dict(_sim_unpack(_sim_blob)); args = {}
        for k, v in d.items():
            if k.startswith('@'): args[k[1:]] = _sim_form(v, how) if isinstance(v, _np.ndarray) else v
            else: setattr(o, k, _sim_form(v, how) if isinstance(v, _np.ndarray) else v)
        order = ['ns', 'iotas', 'rmnc0', 'rmns0', 'zmnc0', 'zmns0', 'lmnc0', 'lmns0', 'bmnc0', 'bmns0', 'bsubumnc0', 'bsubumns0', 'bsubvmnc0', 'bsubvmns0'] + (['phips', 'chi', 'pres', 'phi'] if 'phips' in args else [])
        if how % 5 == 4: o.init_from_vmec(**args)
        else: o.init_from_vmec(*[args[k] for k in order])
    elif op == 'ro':
        for f in a[3].split(','):
            try: setattr(o, f, getattr(o, f))
            except AttributeError: continue
            raise SystemError('output ' + f + ' can be assigned')
    elif op == 'obs': _sim_blob = b''.join(_sim_bytes(getattr(o, k)) for k in a[3].split(','))
    elif op == 'hold':
        for f in a[4].split(','): x = getattr(o, f); _sim_held[(a[3], f)] = (x, _sim_bytes(x))
    else: raise SystemError(op)
def _sim_api(args):
    try: _sim_call([os.fsdecode(x) for x in args]); return 0
    except MemoryError: return 2
    except RuntimeError: return 1
    except BaseException as e:
        if os.environ.get('SIMRUN_PYDEBUG'): import traceback; sys.__stderr__.write(traceback.format_exc())
        return 3

# ------------------------------------------------------------------ plots
def _sim_near(x, y):
    x = _np.asarray(x, dtype=float); y = _np.asarray(y, dtype=float)
    if x.shape != y.shape: return False
    t = 1e-9 * (1 + (_np.max(_np.abs(y)) if y.size else 0))
    return bool(_np.all(_np.abs(x - y) <= t))
def _sim_match(got, want):
    """got and want hold the same items, in any order; items are tuples of arrays"""
    got = list(got)
    for w in want:
        for i, g in enumerate(got):
            if len(g) == len(w) and all(_sim_near(a, b) for a, b in zip(g, w)): del got[i]; break
        else: return 'something is missing'
    return 'something is drawn that should not be there' if got else ''
def _sim_class(m, n, nfp, detail):
    if m == 0: return 'background' if n == 0 else 'mirror'
    if n == 0: return 'qa'
    if detail and n == nfp * m: return 'helical+'
    if detail and n == -nfp * m: return 'helical-'
    return 'helical'
def _sim_expect(kind, o, d, res):
    """what is wrong with the drawing of the results d"""
    xm = d['xm_b']; xn = d['xn_b']; nfp = d['nfp']
    if kind == 'surfplot':
        k, args, kw = _sim_draw.take_contour()
        if k is None: return 'no contours were drawn'
        if k != ('contourf' if o.get('fill', True) else 'contour'): return k + ' was used'
        th = _np.linspace(0, 2 * _np.pi, o.get('ntheta', 50)); ph = _np.linspace(0, 2 * _np.pi / nfp, o.get('nphi', 90)); js = o.get('js', 0)
        P, T = _np.meshgrid(ph, th); B = _np.zeros_like(P)
        for i in range(len(xm)):
            a = float(xm[i]) * T - float(xn[i]) * P; B = B + d['bmnc_b'][i, js] * _np.cos(a)
            if d['asym']: B = B + d['bmns_b'][i, js] * _np.sin(a)
        x, y = args[0], args[1]
        if _np.ndim(x) == 1: x, y = _np.meshgrid(x, y)
        if not _sim_near(x, P) or not _sim_near(y, T): return 'the grid of angles is wrong'
        if not _sim_near(args[2], B): return 'the field strength is wrong'
        lv = args[3] if len(args) > 3 else kw.get('levels')
        if lv is None or (_np.ndim(lv) == 0 and lv != o.get('ncontours', 25)): return 'the number of contours is wrong'
        if 'alpha' in o and kw.get('alpha') != o['alpha']: return 'an option for matplotlib is lost'
        return ''
    if kind in ('symplot', 'modeplot'):
        cur = _sim_draw.take_plots(); log = o.get('log', True); rad = _np.sqrt(d['s_b']) if o.get('sqrts') else d['s_b']
        data = d['bmnc_b'].copy(); gone = _np.zeros(len(xm), dtype=bool)
        if o.get('remove_helicity') is not None:
            hm, hn = o['remove_helicity']; gone = _np.array([int(hn) * int(m) == int(hm) * int(n) for m, n in zip(xm, xn)]); data[gone] = 0
        show = _np.abs(data) if log else data
        ref = [c for c in cur if len(c[0]) == 2 and _sim_near(c[0], [0, 1]) and _sim_near(c[1], [0, 0]) and not c[3].get('label') and c[2]]
        cur = [c for c in cur if not any(c is q for q in ref)]
        if not log and not ref: return 'the reference line is missing'
        if bool(_sim_draw.log) != bool(log): return 'the scale of the axis is wrong'
        if 'ymin' in o and log and _sim_draw.bottom != o['ymin']: return 'the lower limit is wrong'
        for c in cur:
            if not _sim_near(c[0], rad): return 'a curve has wrong abscissas'
            if 'marker' in o and c[3].get('marker') != o['marker']: return 'an option for matplotlib is lost'
        if kind == 'symplot':
            det = o.get('helical_detail', False); cls = [_sim_class(m, n, nfp, det) for m, n in zip(xm, xn)]
            want = [i for i in range(len(xm)) if xm[i] <= o.get('max_m', 20) and abs(xn[i]) <= o.get('max_n', 20) * nfp and (o.get('B0', True) or xm[i] or xn[i])]
            free = [c for c in cur if not c[3].get('label')]; col = {}
            for i in want:
                for k, c in enumerate(free):
                    if _sim_near(c[1], show[i]) and (cls[i] not in col or col[cls[i]] == c[3].get('color')):
                        if cls[i] not in col and c[3].get('color') in col.values(): continue
                        # a curve that is zero everywhere has no class
                        if not gone[i] and _np.any(show[i]): col[cls[i]] = c[3].get('color')
                        del free[k]; break
                else:
                    if not gone[i]: return 'mode m=%d n=%d is not drawn, or not in the color of its kind' % (xm[i], xn[i])
            if free: return 'a curve is drawn that should not be there'
            for c in cur:
                l = c[3].get('label')
                if not l: continue
                k = 'background' if 'Background' in l else 'qa' if 'axisymm' in l else 'mirror' if 'Mirror' in l else 'helical'
                ok = [i for i in range(len(xm)) if cls[i].startswith(k) and _sim_near(c[1], show[i])]
                if not ok: return 'the curve for the legend entry ' + l + ' is wrong'
                if k == 'background' and not o.get('B0', True): return 'the background mode is drawn'
            return ''
        n0 = 0 if o.get('B0', True) else 1; ids = list(range(n0, len(xm))); nm = min(o.get('nmodes', 10), len(ids))
        if len(cur) != nm: return '%d curves are drawn, %d modes were asked for' % (len(cur), nm)
        amp = sorted((abs(data[i, -1]) for i in ids), reverse=True)[:nm]; seen = set()
        for j, c in enumerate(cur):
            v = [int(x) for x in _re.findall(r'-?[0-9]+', str(c[3].get('label')))]
            if len(v) != 2: return 'a curve has no mode numbers'
            i = [q for q in ids if xm[q] == v[0] and xn[q] == v[1]]
            if not i or i[0] in seen: return 'a curve has wrong mode numbers'
            seen.add(i[0])
            if not _sim_near(c[1], show[i[0]]): return 'the curve of m=%d n=%d is wrong' % tuple(v)
            if abs(data[i[0], -1]) != amp[j]: return 'the modes are not the largest ones'
        return ''
    # wireplot
    tr = list(res._sim_data); nt = o.get('ntheta', 30); npf = o.get('nphi', 80); rf = o.get('refine', 3); js = o.get('js'); js = d['ns_b'] - 1 if js is None else js
    P, T = _np.meshgrid(_np.linspace(0, 2 * _np.pi, npf * rf + 1), _np.linspace(0, 2 * _np.pi, nt * rf + 1))
    def series(mm, nn, c, s, j):
        f = _np.zeros_like(T)
        for i in range(len(mm)):
            a = float(mm[i]) * T - float(nn[i]) * P
            if c is not None: f = f + c[i, j] * _np.cos(a)
            if s is not None: f = f + s[i, j] * _np.sin(a)
        return f
    A = bool(d['asym']); q = lambda x: d[x] if A else None
    R = series(xm, xn, d['rmnc_b'], q('rmns_b'), js); Z = series(xm, xn, q('zmnc_b'), d['zmns_b'], js); nu = series(xm, xn, q('numnc_b'), d['numns_b'], js)
    lines = lambda X, Y, Z: [(X[i], Y[i], Z[i]) for i in range(0, nt * rf + 1, rf)] + [(X[:, i], Y[:, i], Z[:, i]) for i in range(0, npf * rf + 1, rf)]
    want = lines(R * _np.cos(P - nu), R * _np.sin(P - nu), Z)
    if o.get('orig', True) and 'rmnc' in d and len(d['xm']):
        k = int(d['compute_surfs'][js]); R0 = series(d['xm'], d['xn'], d['rmnc'], q('rmns'), k); Z0 = series(d['xm'], d['xn'], q('zmnc'), d['zmns'], k)
        old = lines(R0 * _np.cos(P), R0 * _np.sin(P), Z0)
    else: old = []
    surf = [t for t in tr if t[0] == 'Surface']; ln = [t for t in tr if t[0] == 'Scatter3d']
    if len(surf) != (1 if o.get('surf', True) else 0): return 'the surface is missing or drawn twice'
    X, Y = R * _np.cos(P - nu), R * _np.sin(P - nu)
    for t in surf:
        for g, w in ((t[1]['x'], X), (t[1]['y'], Y), (t[1]['z'], Z)):
            if _np.shape(g) != _np.shape(w) or _np.any(_np.isfinite(g) & (_np.abs(g - w) > 0.0021)): return 'the surface is wrong'
    groups = {}
    for t in ln: groups.setdefault(str(t[1].get('line')), []).append((t[1]['x'], t[1]['y'], t[1]['z']))
    gs = list(groups.values())
    if len(gs) != (2 if old else 1): return '%d kinds of curves are drawn' % len(gs)
    e = [_sim_match(gs[0], want)] + ([_sim_match(gs[1], old)] if old else [])
    if any(e) and old: e = [_sim_match(gs[1], want), _sim_match(gs[0], old)]
    return ' / '.join(x for x in e if x)
def _sim_plot(a):
    """plot <object or => <kind> <options>: draws, and puts what is wrong into the blob"""
    global _sim_blob
    kind = a[4]; opt = eval(a[5], {}); o = dict(opt); n = a[2]
    if n == '=':
        d = dict(_sim_unpack(_sim_blob)); arg = a[3]
    else:
        arg = _sim_o[n]; d = {k: getattr(arg, k) for k in ('asym', 'nfp', 'xm_b', 'xn_b', 's_b', 'ns_b', 'bmnc_b', 'bmns_b', 'rmnc_b', 'rmns_b', 'zmnc_b', 'zmns_b', 'numnc_b', 'numns_b', 'compute_surfs', 'xm', 'xn', 'rmnc', 'rmns', 'zmnc', 'zmns')}
        d = {k: v.copy() if hasattr(v, 'copy') else v for k, v in d.items()}
    _sim_blob = b''
    _sim_draw.clear(); kw = dict(opt)
    f = getattr(booz_xform, kind)
    res = f(arg, **kw)
    _sim_blob = _sim_expect(kind, o, d, res).encode()
