"""Translate a Cython 0.29 module (the real .pyx plus its .pxd) to Python source.

Cython's own parser produces the syntax tree; this module prints it back as Python in which
the C-level typing is made explicit by run-time coercions (``_t_d`` etc., see cyrt.py):
typed arguments, locals, attributes and return values, memoryview acquisition, C division,
prange.  Anything not recognised raises, so nothing is skipped silently.
"""
import os
import sys

from Cython.Compiler.Main import Context, CompilationOptions, default_options
from Cython.Compiler.Scanning import FileSourceDescriptor
from Cython.Compiler.Symtab import ModuleScope
from Cython.Compiler import Nodes, ExprNodes


class TranslateError(Exception):
    pass


def parse(path, modname, pxd=False):
    opts = CompilationOptions(default_options, language_level=2)
    ctx = Context([os.path.dirname(path)], {}, cpp=False, language_level=2, options=opts)
    scope = ModuleScope(modname, None, ctx)
    return ctx.parse(FileSourceDescriptor(path), scope, pxd=pxd, full_module_name=modname)


DBL = {'double', 'float', 'double_t', 'float64_t'}
CPX = {'complex_t', 'complex128_t'}
BOOLU8 = {'bool_t', 'uint8_t'}
BINT = {'bint'}
INT = {'int', 'long', 'int_t', 'long_t', 'int64_t', 'Py_ssize_t', 'short', 'char', 'intp_t', 'size_t', 'ssize_t'}


class Ty:
    """kind in d c i u b (bint) o v(void); mv = ndim of memoryview or None; arr = list of C array dims"""

    def __init__(self, kind, mv=None, arr=None, name=None, ptr=False):
        self.kind, self.mv, self.arr, self.name, self.ptr = kind, mv, arr, name, ptr

    def coercer(self):
        if self.ptr:
            return None
        if self.mv is not None:
            return '_mv_%s(%%s, %d)' % (self.kind, self.mv)
        if self.arr is not None:
            return None
        if self.kind in 'dciub':
            return '_t_%s(%%s)' % self.kind
        return None


def base_type(t):
    n = type(t).__name__
    if n == 'CSimpleBaseTypeNode':
        if t.name is None:
            return Ty('o')
        if t.complex and t.name in ('double', 'float'):
            return Ty('c')
        if t.name in DBL:
            return Ty('d')
        if t.name in CPX:
            return Ty('c')
        if t.name in BOOLU8:
            return Ty('u')
        if t.name in BINT:
            return Ty('b')
        if t.name in INT and (t.is_basic_c_type or t.name.endswith('_t')):
            return Ty('i')
        if t.name == 'void':
            return Ty('v')
        return Ty('o', name=t.name)
    if n == 'MemoryViewSliceTypeNode':
        b = base_type(t.base_type_node)
        return Ty(b.kind, mv=len(t.axes))
    if n == 'CComplexBaseTypeNode':
        b = base_type(t.base_type)
        return declared(t.declarator, b)[1]
    if n == 'TemplatedTypeNode':
        # ``double[8] x`` is parsed as a templated type; dims are integer literals
        if getattr(t.base_type_node, 'name', None) == 'ndarray':
            # np.ndarray[dtype, ndim=k]: a numpy object with buffer indexing
            k = t.positional_args[0]
            ek = Ty('o')
            nm = getattr(k, 'name', None) or getattr(k, 'attribute', None)
            for kind, names in (('d', DBL), ('c', CPX), ('u', BOOLU8), ('i', INT)):
                if nm in names:
                    ek = Ty(kind)
            return Ty('o', name='ndarray:' + ek.kind)
        b = base_type(t.base_type_node)
        dims = [int(a.value) if hasattr(a, 'value') else None for a in t.positional_args]
        if b.arr:
            return Ty(b.kind, arr=dims + b.arr)
        return Ty(b.kind, arr=dims)
    raise TranslateError('type node %s' % n)


def declared(d, base):
    """(name, Ty, default) for a declarator."""
    n = type(d).__name__
    if n == 'CNameDeclaratorNode':
        return d.name, base, d.default
    if n == 'CPtrDeclaratorNode':
        nm, ty, df = declared(d.base, base)
        return nm, Ty(base.kind, ptr=True), df
    if n == 'CArrayDeclaratorNode':
        nm, ty, df = declared(d.base, base)
        dim = int(d.dimension.value)
        return nm, Ty(base.kind, arr=[dim] + (ty.arr or [])), df
    raise TranslateError('declarator %s' % n)


def _privates(body):
    """names assigned in a block, without the reduction variables (in-place operations)"""
    asg, red = set(), set()
    stack = [body]
    while stack:
        x = stack.pop()
        if isinstance(x, (list, tuple)):
            stack.extend(x)
            continue
        n = type(x).__name__
        if not hasattr(x, 'child_attrs'):
            continue
        if n == 'InPlaceAssignmentNode' and type(x.lhs).__name__ == 'NameNode':
            red.add(x.lhs.name)
        elif n in ('SingleAssignmentNode', 'CascadedAssignmentNode'):
            for t in ([x.lhs] if n[0] == 'S' else x.lhs_list):
                if type(t).__name__ == 'NameNode':
                    asg.add(t.name)
        elif n == 'ForInStatNode' and type(x.target).__name__ == 'NameNode':
            asg.add(x.target.name)
        for a in x.child_attrs or ():
            y = getattr(x, a, None)
            if y is not None:
                stack.append(y)
    return asg - red


class Module:
    def __init__(self, pyx, modname, pxd=None):
        self.modname = modname
        self.tree = parse(pyx, modname)
        self.pxd = parse(pxd, modname, True) if pxd and os.path.exists(pxd) else None
        self.out = []
        self.ind = 0
        self.locals = [{}]
        self.rets = [None]
        self.functions = []
        self.wrap = [True]
        self.cdiv = [False]
        d = self.tree.directive_comments or {}
        self.wrap[0] = d.get('wraparound', True)
        self.cdiv[0] = d.get('cdivision', False)
        self.modtypes = {}
        self.classattrs = {}
        self.methodrets = {}
        self.tmp = 0
        self.globals_decl = set()

    # ---- output
    def w(self, s):
        self.out.append('    ' * self.ind + s)

    def translate(self):
        self.w('from engine.cyrt import *')
        self.w('from engine import cyrt as _rt')
        if self.pxd is not None:
            self.pxd_pass(self.pxd.body)
        self.scan_attrs(self.tree.body)
        self.stmts_body(self.tree.body, top=True)
        return '\n'.join(self.out) + '\n'

    # ---- pxd: class attribute declarations, cimports, module cdefs
    def pxd_pass(self, body):
        for s in body.stats:
            n = type(s).__name__
            if n == 'CClassDefNode':
                self.collect_class(s)
            elif n in ('FromCImportStatNode', 'CImportStatNode', 'FromImportStatNode', 'SingleAssignmentNode'):
                self.stat(s)
            elif n == 'CVarDefNode':
                b = base_type(s.base_type)
                for d in s.declarators:
                    if type(d).__name__ == 'CFuncDeclaratorNode':
                        continue
                    nm, ty, df = declared(d, b)
                    self.modtypes[nm] = ty
            elif n == 'StatListNode':
                self.pxd_pass(s)
            elif n in ('CTypeDefNode', 'ExprStatNode', 'PassStatNode', 'CFuncDefNode'):
                pass
            else:
                raise TranslateError('pxd statement %s' % n)

    def collect_class(self, s):
        at = self.classattrs.setdefault(s.class_name, {})
        if s.body is None:
            return
        for x in (s.body.stats if hasattr(s.body, 'stats') else [s.body]):
            if type(x).__name__ == 'CVarDefNode':
                b = base_type(x.base_type)
                for d in x.declarators:
                    if type(d).__name__ == 'CFuncDeclaratorNode':
                        continue
                    nm, ty, df = declared(d, b)
                    at[nm] = ty

    def scan_attrs(self, body):
        for s in body.stats if hasattr(body, 'stats') else [body]:
            n = type(s).__name__
            if n == 'CClassDefNode':
                self.collect_class(s)

    # ---- statements
    def stmts_body(self, body, top=False):
        n0 = len(self.out)
        if body is None:
            self.w('pass')
            return
        for s in (body.stats if type(body).__name__ == 'StatListNode' else [body]):
            self.stat(s, top)
        if len(self.out) == n0:
            self.w('pass')

    def stat(self, s, top=False):
        n = type(s).__name__
        f = getattr(self, 's_' + n, None)
        if f is None:
            raise TranslateError('%s: statement %s' % (self.modname, n))
        f(s)

    def s_StatListNode(self, s):
        for x in s.stats:
            self.stat(x)

    def s_PassStatNode(self, s):
        self.w('pass')

    def s_CTypeDefNode(self, s):
        pass

    def s_CImportStatNode(self, s):
        if s.module_name in ('numpy', 'cython', 'openmp') or s.module_name.startswith('libc'):
            if s.module_name == 'openmp':
                self.w('openmp = _rt.openmp')
            return
        if s.module_name == 'scipy.linalg.cython_lapack' and not s.as_name:
            self.w('scipy = _rt.scipy_cimport')
            return
        self.w('# cimport %s' % s.module_name)

    def s_FromCImportStatNode(self, s):
        m = s.module_name
        if m.startswith('libc.math'):
            for it in s.imported_names:
                nm, as_ = it[1], it[2] or it[1]
                self.w('%s = _rt.libc_%s' % (as_, nm))
            return
        if m.startswith('cython.parallel'):
            for it in s.imported_names:
                self.w('%s = _rt.%s' % (it[2] or it[1], it[1]))
            return
        if m == 'libc.stdlib':
            for it in s.imported_names:
                self.w('%s = _rt.%s' % (it[2] or it[1], it[1]))
            return
        if m.startswith('libc') or m in ('cython', 'numpy'):
            return
        lvl = s.relative_level or 0
        for it in s.imported_names:
            nm, as_ = it[1], it[2] or it[1]
            if nm.endswith('_t'):
                continue
            self.w('from %s%s import %s as %s' % ('.' * lvl, m, nm, as_))

    def s_FromImportStatNode(self, s):
        m = s.module
        lvl = m.level if m.level is not None and m.level > 0 else 0
        for name, target in s.items:
            self.w('from %s%s import %s as %s' % ('.' * lvl, m.module_name.value, name, target.name))

    def s_SingleAssignmentNode(self, s):
        if type(s.rhs).__name__ == 'ImportNode':
            m = s.rhs.module_name.value
            if s.lhs.name == m.split('.')[0] and '.' not in m:
                self.w('import %s' % m)
            elif s.lhs.name == m.split('.')[0]:
                self.w('import %s' % m)
            else:
                self.w('import %s as %s' % (m, s.lhs.name))
            return
        self.assign(s.lhs, self.e(s.rhs))

    def s_CascadedAssignmentNode(self, s):
        t = self.newtmp()
        self.w('%s = %s' % (t, self.e(s.rhs)))
        for l in s.lhs_list:
            self.assign(l, t)

    def newtmp(self):
        self.tmp += 1
        return '_tmp%d' % self.tmp

    def ltype(self, name):
        for sc in reversed(self.locals):
            if name in sc:
                return sc[name]
        return self.modtypes.get(name)

    def assign(self, lhs, rhs):
        n = type(lhs).__name__
        if n == 'NameNode':
            ty = self.ltype(lhs.name)
            co = ty.coercer() if ty is not None else None
            self.w('%s = %s' % (lhs.name, co % rhs if co else rhs))
        elif n in ('TupleNode', 'ListNode'):
            ts = [self.newtmp() for _ in lhs.args]
            self.w('%s, = %s' % (', '.join(ts), rhs))
            for l, t in zip(lhs.args, ts):
                self.assign(l, t)
        elif n in ('AttributeNode', 'IndexNode', 'SliceIndexNode'):
            self.w('%s = %s' % (self.e(lhs), rhs))
        else:
            raise TranslateError('assignment target %s' % n)

    def s_InPlaceAssignmentNode(self, s):
        op = s.operator
        n = type(s.lhs).__name__
        if n == 'NameNode':
            ty = self.ltype(s.lhs.name)
            if ty is None or not ty.coercer() or ty.arr is not None:
                # a Python object (an array is changed in place)
                self.w('%s = _rt.iop(%r, %s, %s)' % (s.lhs.name, op, s.lhs.name, self.e(s.rhs)))
            else:
                self.assign(s.lhs, self.binop(op, self.e(s.lhs), self.e(s.rhs)))
        elif n == 'AttributeNode':
            t = self.newtmp()
            self.w('%s = %s' % (t, self.e(s.lhs.obj)))
            self.w('%s.%s = _rt.iop(%r, %s.%s, %s)' % (t, s.lhs.attribute, op, t, s.lhs.attribute, self.e(s.rhs)))
        else:
            base, ix = self.newtmp(), self.newtmp()
            if n == 'IndexNode':
                self.w('%s = %s' % (base, self.wrapbase(self.e(s.lhs.base))))
                self.w('%s = %s' % (ix, self.e(s.lhs.index) if type(s.lhs.index).__name__ != 'TupleNode'
                                    else '(%s,)' % ', '.join(self.ix(a) for a in s.lhs.index.args)))
            else:
                self.w('%s = %s' % (base, self.e(s.lhs.base)))
                self.w('%s = slice(%s, %s)' % (ix, self.e(s.lhs.start) if s.lhs.start else 'None',
                                               self.e(s.lhs.stop) if s.lhs.stop else 'None'))
            self.w('%s[%s] = _rt.iop(%r, %s[%s], %s)' % (base, ix, op, base, ix, self.e(s.rhs)))

    def s_CVarDefNode(self, s):
        b = base_type(s.base_type)
        for d in s.declarators:
            if type(d).__name__ == 'CFuncDeclaratorNode':
                continue
            nm, ty, df = declared(d, b)
            if self.ind_class:
                continue
            (self.locals[-1] if len(self.locals) > 1 else self.modtypes)[nm] = ty
            if ty.arr is not None:
                if df is not None:
                    self.w('%s = _rt.carray(%r, %r, %s)' % (nm, ty.kind, ty.arr, self.e(df)))
                else:
                    self.w('%s = _rt.carray(%r, %r)' % (nm, ty.kind, ty.arr))
            elif df is not None:
                co = ty.coercer()
                r = self.e(df)
                self.w('%s = %s' % (nm, co % r if co else r))
            elif ty.kind == 'o' and ty.mv is None and len(self.locals) > 1:
                pass

    ind_class = False

    def s_CClassDefNode(self, s):
        bases = []
        if s.bases is not None:
            bases = [self.e(a) for a in s.bases.args]
        self.w('class %s(%s):' % (s.class_name, ', '.join(bases) if bases else '_rt.CyObj'))
        self.ind += 1
        at = self.classattrs.get(s.class_name, {})
        self.w('_cy_own = {%s}' % ', '.join('%r: (%r, %r)' % (k, t.kind, t.mv) for k, t in sorted(at.items())
                                            if not t.ptr))
        if any(t.ptr for t in at.values()):
            self.w('_cy_ptr = %r' % (tuple(k for k, t in sorted(at.items()) if t.ptr),))
        self.cls = s.class_name
        old = self.ind_class
        for x in (s.body.stats if s.body is not None and hasattr(s.body, 'stats') else [s.body]):
            if x is None:
                continue
            self.ind_class = True
            self.stat(x)
        self.ind_class = old
        self.cls = None
        self.ind -= 1

    def s_PyClassDefNode(self, s):
        bases = [self.e(a) for a in s.bases.args] if s.bases is not None else []
        self.w('class %s(%s):' % (s.name, ', '.join(bases)))
        self.ind += 1
        old = self.ind_class
        self.ind_class = True
        self.stmts_body(s.body)
        self.ind_class = old
        self.ind -= 1

    def s_PropertyNode(self, s):
        raise TranslateError('property block')

    cls = None

    def decor(self, s):
        wrap, cdiv = self.wrap[-1], self.cdiv[-1]
        lines = []
        for d in (s.decorators or []):
            x = d.decorator
            txt = self.e(x)
            if txt.startswith('cython.'):
                if txt.startswith('cython.wraparound('):
                    wrap = 'True' in txt
                elif txt.startswith('cython.cdivision('):
                    cdiv = 'True' in txt
                elif txt.startswith(('cython.boundscheck', 'cython.nonecheck', 'cython.initializedcheck',
                                     'cython.profile', 'cython.nogil', 'cython.inline', 'cython.infer_types',
                                     'cython.embedsignature', 'cython.binding')):
                    pass
                else:
                    raise TranslateError('directive %s' % txt)
            else:
                lines.append('@' + txt)
        return wrap, cdiv, lines

    def emit_func(self, name, args, body, ret, s, star=None, starstar=None):
        wrap, cdiv, lines = self.decor(s)
        for l in lines:
            self.w(l)
        sig, coerces, types = [], [], {}
        for (nm, ty, df) in args:
            sig.append(nm if df is None else '%s=%s' % (nm, df))
            types[nm] = ty
            co = ty.coercer() if ty is not None else None
            if co:
                coerces.append('%s = %s' % (nm, co % nm))
        if star:
            sig.append('*' + star)
        if starstar:
            sig.append('**' + starstar)
        self.w('def %s(%s):' % (name, ', '.join(sig)))
        self.functions.append(('%s.' % self.cls if self.cls else '') + name)
        self.ind += 1
        oldic = self.ind_class
        self.ind_class = False
        self.locals.append(types)
        self.rets.append(ret)
        self.wrap.append(wrap)
        self.cdiv.append(cdiv)
        for c in coerces:
            self.w(c)
        self.stmts_body(body)
        if ret is not None and ret.kind in 'dciub' and ret.mv is None:
            self.w('return %s' % (ret.coercer() % '0'))
        self.locals.pop()
        self.rets.pop()
        self.wrap.pop()
        self.cdiv.pop()
        self.ind_class = oldic
        self.ind -= 1

    def carg(self, a):
        b = base_type(a.base_type)
        nm, ty, df = declared(a.declarator, b)
        if not nm:
            # ``def f(x)``: the single identifier is parsed as the base type name
            nm = a.base_type.name
            ty = Ty('o')
        if a.default is not None:
            d = self.e(a.default) if type(a.default).__name__ != 'BoolNode' or True else None
        else:
            d = None
        return nm, ty, d

    def s_CFuncDefNode(self, s):
        d = s.declarator
        ret = base_type(s.base_type)
        if ret.name is None and ret.kind == 'o':
            ret = None
        while type(d).__name__ == 'CPtrDeclaratorNode':
            d = d.base
            ret = Ty('o')
        name = d.base.name
        args = [self.carg(a) for a in d.args]
        if self.cls and args and args[0][0] == 'self':
            args[0] = ('self', Ty('o'), None)
        self.emit_func(name, args, s.body, ret, s)

    def s_DefNode(self, s):
        args = [self.carg(a) for a in s.args]
        if self.cls and args and args[0][0] == 'self':
            args[0] = ('self', Ty('o'), None)
        star = s.star_arg.name if s.star_arg else None
        ss = s.starstar_arg.name if s.starstar_arg else None
        self.emit_func(s.name, args, s.body, None, s, star, ss)

    def s_ReturnStatNode(self, s):
        if s.value is None:
            self.w('return')
            return
        r = self.e(s.value)
        ret = self.rets[-1]
        co = ret.coercer() if ret is not None and ret.kind != 'v' else None
        self.w('return %s' % (co % r if co else r))

    def s_ExprStatNode(self, s):
        if type(s.expr).__name__ in ('UnicodeNode', 'StringNode', 'BytesNode'):
            return
        self.cells = []
        e = self.e(s.expr)
        cells, self.cells = self.cells, None
        for t, nm, co in cells:
            self.w('%s = _rt.Cell(lambda: %s, %s)' % (t, nm, co))
        self.w(e)
        for t, nm, co in cells:
            self.w('if %s.v is not _rt.UNSET:' % t)
            self.w('    %s = %s.v' % (nm, t))

    def s_IfStatNode(self, s):
        kw = 'if'
        for c in s.if_clauses:
            self.w('%s %s:' % (kw, self.e(c.condition)))
            self.ind += 1
            self.stmts_body(c.body)
            self.ind -= 1
            kw = 'elif'
        if s.else_clause is not None:
            self.w('else:')
            self.ind += 1
            self.stmts_body(s.else_clause)
            self.ind -= 1

    def s_WhileStatNode(self, s):
        self.w('while %s:' % self.e(s.condition))
        self.ind += 1
        self.stmts_body(s.body)
        self.ind -= 1
        self.orelse(s)

    def orelse(self, s):
        if s.else_clause is not None:
            self.w('else:')
            self.ind += 1
            self.stmts_body(s.else_clause)
            self.ind -= 1

    def s_ForInStatNode(self, s):
        seq = s.iterator.sequence
        t = s.target
        if type(t).__name__ == 'NameNode':
            self.w('for %s in %s:' % (t.name, self.e(seq)))
            self.ind += 1
            ty = self.ltype(t.name)
            if ty is not None and ty.coercer():
                self.w('%s = %s' % (t.name, ty.coercer() % t.name))
            if type(seq).__name__.endswith('CallNode') and self.e(seq).startswith('prange('):
                # variables assigned in a parallel loop are private to the iteration
                for nm in sorted(_privates(s.body) - {t.name}):
                    self.w('%s = _rt.UNDEF' % nm)
        else:
            tmp = self.newtmp()
            self.w('for %s in %s:' % (tmp, self.e(seq)))
            self.ind += 1
            self.assign(t, tmp)
        self.stmts_body(s.body)
        self.ind -= 1
        self.orelse(s)

    def s_ForFromStatNode(self, s):
        tmp = self.newtmp()
        self.w('for %s in _rt.forfrom(%s, %r, %r, %s, %s):' % (
            tmp, self.e(s.bound1), s.relation1, s.relation2, self.e(s.bound2),
            self.e(s.step) if s.step is not None else '1'))
        self.ind += 1
        self.assign(s.target, tmp)
        self.stmts_body(s.body)
        self.ind -= 1
        self.orelse(s)

    def s_TryFinallyStatNode(self, s):
        self.w('try:')
        self.ind += 1
        self.stmts_body(s.body)
        self.ind -= 1
        self.w('finally:')
        self.ind += 1
        self.stmts_body(s.finally_clause)
        self.ind -= 1

    def s_BreakStatNode(self, s):
        self.w('break')

    def s_ContinueStatNode(self, s):
        self.w('continue')

    def s_GILStatNode(self, s):
        self.w('if True:')
        self.ind += 1
        self.stmts_body(s.body)
        self.ind -= 1

    def s_WithStatNode(self, s):
        m = self.e(s.manager)
        if m.startswith(('nogil', 'gil', 'parallel', 'cython.')):
            self.w('if True:')
        else:
            self.w('with %s:' % m)
        self.ind += 1
        self.stmts_body(s.body)
        self.ind -= 1

    def s_RaiseStatNode(self, s):
        self.w('raise %s' % (self.e(s.exc_type) if s.exc_type is not None else ''))

    def s_TryExceptStatNode(self, s):
        self.w('try:')
        self.ind += 1
        self.stmts_body(s.body)
        self.ind -= 1
        for c in s.except_clauses:
            pat = ''
            if c.pattern:
                pat = ' ' + (self.e(c.pattern[0]) if len(c.pattern) == 1
                             else '(%s)' % ', '.join(self.e(p) for p in c.pattern))
            self.w('except%s%s:' % (pat, ' as %s' % c.target.name if c.target is not None else ''))
            self.ind += 1
            self.stmts_body(c.body)
            self.ind -= 1
        self.orelse(s)

    def s_PrintStatNode(self, s):
        args = s.arg_tuple.args if s.arg_tuple is not None else []
        self.w('_rt.cyprint(%s)' % ', '.join(self.e(a) for a in args))

    def s_AssertStatNode(self, s):
        self.w('assert %s' % self.e(s.cond if hasattr(s, 'cond') else s.condition))

    def s_GlobalNode(self, s):
        self.w('global %s' % ', '.join(s.names))

    def s_DelStatNode(self, s):
        self.w('del %s' % ', '.join(self.e(a) for a in s.args))

    # ---- expressions
    def e(self, x):
        n = type(x).__name__
        f = getattr(self, 'e_' + n, None)
        if f is None:
            raise TranslateError('%s: expression %s' % (self.modname, n))
        return f(x)

    def e_NameNode(self, x):
        return str(x.name)

    def e_NoneNode(self, x):
        return 'None'

    def e_BoolNode(self, x):
        return 'True' if x.value else 'False'

    def e_IntNode(self, x):
        return str(x.value).rstrip('uUlL')

    def e_FloatNode(self, x):
        return str(x.value)

    def e_ImagNode(self, x):
        return '%sj' % x.value

    def e_StringNode(self, x):
        v = x.unicode_value if x.unicode_value is not None else x.value
        return repr(str(v))

    e_IdentifierStringNode = e_UnicodeNode = e_StringNode

    def e_UnicodeNode(self, x):
        return repr(str(x.value))

    def e_EllipsisNode(self, x):
        return '...'

    def e_AttributeNode(self, x):
        return '%s.%s' % (self.e(x.obj), x.attribute)

    def wrapbase(self, b):
        return '_rt.wrap_ok(%s)' % b if self.wrap[-1] else b

    def ix(self, a):
        if type(a).__name__ == 'SliceNode':
            g = lambda v: '' if v is None or type(v).__name__ == 'NoneNode' else self.e(v)
            r = 'slice(%s, %s, %s)' % (g(a.start) or 'None', g(a.stop) or 'None', g(a.step) or 'None')
            return r
        return self.e(a)

    def e_SliceNode(self, a):
        return self.ix(a)

    def e_IndexNode(self, x):
        b = self.wrapbase(self.e(x.base))
        if type(x.index).__name__ == 'TupleNode':
            return '%s[%s]' % (b, ', '.join(self.ix(a) for a in x.index.args))
        return '%s[%s]' % (b, self.ix(x.index))

    def e_SliceIndexNode(self, x):
        return '%s[%s:%s]' % (self.e(x.base), self.e(x.start) if x.start else '', self.e(x.stop) if x.stop else '')

    def e_TupleNode(self, x):
        a = [self.e(v) for v in x.args]
        return '(%s,)' % ', '.join(a) if a else '()'

    def e_ListNode(self, x):
        return '[%s]' % ', '.join(self.e(v) for v in x.args)

    def e_DictNode(self, x):
        return '{%s}' % ', '.join('%s: %s' % (self.e(i.key), self.e(i.value)) for i in x.key_value_pairs)

    def e_SimpleCallNode(self, x):
        return '%s(%s)' % (self.callee(x.function), ', '.join(self.e(a) for a in x.args))

    def callee(self, f):
        s = self.e(f)
        if s == 'abs':
            return '_rt.cabs_'
        return s

    def e_GeneralCallNode(self, x):
        pos = x.positional_args
        args = []
        pt = type(pos).__name__
        if pt == 'TupleNode':
            args += [self.e(a) for a in pos.args]
        elif pt == 'AsTupleNode':
            args.append('*' + self.e(pos.arg))
        else:
            args.append('*' + self.e(pos))
        kw = x.keyword_args
        if kw is not None:
            if type(kw).__name__ == 'DictNode':
                for it in kw.key_value_pairs:
                    args.append('%s=%s' % (it.key.value, self.e(it.value)))
            else:
                args.append('**' + self.e(kw))
        f = self.e(x.function)
        if f == 'prange' or f == 'parallel':
            args = [a for a in args if not a.startswith(('nogil=', 'schedule=', 'num_threads=', 'chunksize='))]
        return '%s(%s)' % (f, ', '.join(args))

    def e_AsTupleNode(self, x):
        return 'tuple(%s)' % self.e(x.arg)

    def binop(self, op, a, b):
        if op == '/':
            return '_rt.%s(%s, %s)' % ('cdiv' if self.cdiv[-1] else 'pydiv', a, b)
        if op == '%':
            return '_rt.%s(%s, %s)' % ('cmod' if self.cdiv[-1] else 'pymod', a, b)
        if op == '**':
            return '_rt.cpow(%s, %s)' % (a, b)
        return '(%s %s %s)' % (a, op, b)

    def _bin(self, x):
        return self.binop(x.operator, self.e(x.operand1), self.e(x.operand2))

    e_AddNode = e_SubNode = e_MulNode = e_DivNode = e_PowNode = e_ModNode = e_IntBinopNode = _bin
    e_BitwiseOrNode = _bin

    def e_UnaryMinusNode(self, x):
        return '(-%s)' % self.e(x.operand)

    def e_UnaryPlusNode(self, x):
        return '(+%s)' % self.e(x.operand)

    def e_NotNode(self, x):
        return '(not %s)' % self.e(x.operand)

    def e_BoolBinopNode(self, x):
        return '(%s %s %s)' % (self.e(x.operand1), x.operator, self.e(x.operand2))

    def cmpop(self, op):
        return {'is_not': 'is not', 'not_in': 'not in', '<>': '!='}.get(op, op)

    def e_PrimaryCmpNode(self, x):
        op = self.cmpop(x.operator)
        if op == 'is' and type(x.operand2).__name__ == 'IntNode' or op == 'is not' and \
                type(x.operand2).__name__ == 'IntNode':
            op = '==' if op == 'is' else '!='
        s = '(%s %s %s' % (self.e(x.operand1), op, self.e(x.operand2))
        c = x.cascade
        while c is not None:
            s += ' %s %s' % (self.cmpop(c.operator), self.e(c.operand2))
            c = c.cascade
        return s + ')'

    def e_CondExprNode(self, x):
        return '(%s if %s else %s)' % (self.e(x.true_val), self.e(x.test), self.e(x.false_val))

    def e_TypecastNode(self, x):
        b = base_type(x.base_type)
        nm, ty, df = declared(x.declarator, b)
        if ty.ptr:
            return '_rt.ptrcast(%s, %d)' % (self.e(x.operand), self.csize(x.base_type))
        if ty.kind == 'i':
            return '_rt.trunc(%s)' % self.e(x.operand)
        co = ty.coercer()
        return co % self.e(x.operand) if co else self.e(x.operand)

    def e_AmpersandNode(self, x):
        o = x.operand
        n = type(o).__name__
        if n == 'AttributeNode':
            return '_rt.addr_attr(%s, %r)' % (self.e(o.obj), o.attribute)
        if n == 'IndexNode':
            ix = o.index.args if type(o.index).__name__ == 'TupleNode' else [o.index]
            return '_rt.addr_item(%s, (%s,))' % (self.e(o.base), ', '.join(self.ix(a) for a in ix))
        if n == 'NameNode' and len(self.locals) > 1 and o.name in self.locals[-1]:
            if self.cells is None:
                raise TranslateError('address of a local variable')
            t = self.newtmp()
            ty = self.locals[-1][o.name]
            self.cells.append((t, o.name, '_t_' + ty.kind if ty.kind in 'dciub' else 'None'))
            return t
        raise TranslateError('address of %s' % n)

    cells = None

    def csize(self, t):
        nm = getattr(t, 'name', None)
        if nm == 'int' and getattr(t, 'longness', 0) == 0:
            return 4
        if nm in ('double', 'long', 'double_t', 'int') or nm in INT:
            return {'short': 2, 'char': 1}.get(nm, 8)
        raise TranslateError('size of %s' % nm)

    def e_SizeofTypeNode(self, x):
        return '%d' % self.csize(x.base_type)

    def e_JoinedStrNode(self, x):
        return "''"

    def e_ListComprehensionNode(self, x):
        raise TranslateError('comprehension')

    def e_ComprehensionNode(self, x):
        br = {'set': '{}', 'dict': '{}'}.get(str(getattr(x.type, 'name', '')), '[]') if getattr(x, 'type', None) else '[]'
        return br[0] + self.comp(x.loop) + br[1]

    def e_GeneratorExpressionNode(self, x):
        node = getattr(x, 'loop', None)
        if node is None:
            node = x.def_node.gbody.body if hasattr(x.def_node, 'gbody') else x.def_node.body
        # the sequence is evaluated at once, as no statement can come between
        return '[%s]' % self.comp(node)

    def comp(self, node):
        # append-expr for target in seq (if cond)* with a single loop nest
        parts = []
        while True:
            t = type(node).__name__
            if t == 'ForInStatNode':
                parts.append('for %s in %s' % (self.e(node.target), self.e(node.iterator.sequence)))
                node = node.body
            elif t == 'IfStatNode':
                parts.append('if %s' % self.e(node.if_clauses[0].condition))
                node = node.if_clauses[0].body
            elif t == 'ComprehensionAppendNode':
                return '%s %s' % (self.e(node.expr), ' '.join(parts))
            elif t == 'DictComprehensionAppendNode':
                return '%s: %s %s' % (self.e(node.key_expr), self.e(node.value_expr), ' '.join(parts))
            elif t == 'YieldExprNode':
                return '(%s) %s' % (self.e(node.arg), ' '.join(parts))
            elif t == 'StatListNode' and len(node.stats) == 1:
                node = node.stats[0]
            elif t == 'ExprStatNode':
                node = node.expr
            else:
                raise TranslateError('comprehension body %s' % t)

    def e_SetNode(self, x):
        return '{%s}' % ', '.join(self.e(a) for a in x.args)

    def e_LambdaNode(self, x):
        d = x.def_node if getattr(x, 'def_node', None) is not None else x
        if getattr(d, 'star_arg', None) or getattr(d, 'starstar_arg', None) or any(a.default is not None for a in d.args):
            raise TranslateError('lambda arguments')
        names = [self.carg(a)[0] for a in d.args]
        r = x.result_expr if hasattr(x, 'result_expr') else d.body.value
        return '(lambda %s: %s)' % (', '.join(names), self.e(r))


def translate(pyx, modname):
    pxd = pyx[:-4] + '.pxd'
    m = Module(pyx, modname, pxd)
    return m.translate(), m.functions
