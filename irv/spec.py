"""Verification tasks: one public function against its contract."""
import os, subprocess, tempfile, time, hashlib, json
import z3
from .vals import *
from .ir import Module
from .exec import Exec, State, Obl
from .hints import Hints, Exists, Fold, First
from . import lib, lib_pb, lib_ssl

REPO = os.environ.get('VERIF_REPO', '/repo')
CXX = 'clang++-18'
FLAGS = ['-std=c++17', '-I' + REPO, '-isystem', '/usr/include/android', '-include', os.path.join(os.path.dirname(os.path.abspath(__file__)), 'include/find_if.h')]
OPT = '/usr/lib/llvm-18/bin/opt'

class BuildError(Exception): pass

def emit_ir(src, workdir, extra=()):
    base = os.path.join(workdir, os.path.basename(src))
    r = subprocess.run([CXX] + FLAGS + list(extra) + ['-O0', '-Xclang', '-disable-O0-optnone', '-fno-exceptions', '-g1', '-S', '-emit-llvm', src, '-o', base + '.0.ll'],
                       capture_output=True, text=True)
    if r.returncode: raise BuildError(r.stderr[-3000:])
    r = subprocess.run([OPT, '-passes=mem2reg', '-S', base + '.0.ll', '-o', base + '.ll'], capture_output=True, text=True)
    if r.returncode: raise BuildError(r.stderr[-3000:])
    os.unlink(base + '.0.ll')
    with open(base + '.ll') as f: return f.read()

class Result:
    """outcome of one function under contract"""
    def __init__(self, fn):
        self.fn = fn
        self.obls = {}
        self.unsupported = None
        self.exits = 0
        self.stats = {}
        self.time = 0.0
        self.assumed = []
        self.covers = {}
    def failed(self):
        return [o for o in self.obls.values() if o.status != 'proved']

class Task:
    """fn: normalised name; props: properties the postcondition decides;
    body(ex, st) -> (args, post) ; post(ex, st, ret, oblige) states the obligations at an exit"""
    def __init__(self, fn, props, body, contracts=None, safety=('C17',), hints=None, cover=(), pre_doc='', post_doc='', timeout=600, loop_props=(), abs_only=False, abs_loops=True):
        self.fn, self.props, self.body = fn, tuple(props), body
        self.contracts = contracts
        self.safety = set(safety)
        self.cover = tuple(cover)
        self.pre_doc, self.post_doc = pre_doc, post_doc
        self.timeout = timeout
        self.abs_only = abs_only
        self.abs_loops = abs_loops
        self.loop_props = tuple(loop_props) or tuple(props)

def find_fn(mod, want):
    c = [n for n in mod.funcs if mod.dem(n) == want]
    # constructors and destructors have several copies; C1 calls C2
    c.sort(key=lambda n: (('C2E' not in n and 'D2E' not in n and 'C2' not in n and 'D2' not in n), n))
    return c[0] if c else None

def run_task(mod, task, module_contracts=None):
    res = Result(task.fn)
    t0 = time.time()
    name = find_fn(mod, task.fn)
    if name is None:
        res.unsupported = 'function not found in the translation unit'
        return res
    def contracts(ex, nm, dem):
        if task.contracts:
            f = task.contracts.get(dem)
            if f is not None and nm != name: return f
        if module_contracts:
            f = module_contracts(ex, nm, dem)
            if f is not None and nm != name: return f
        f = lib.lookup(dem, nm)
        if f is not None: res.assumed.append(dem)
        return f
    ex = Exec(mod, contracts, {'loop_props': task.loop_props, 'abs_only': task.abs_only, 'abs_loops': task.abs_loops})
    ex.curfn = task.fn
    ex.safety = task.safety
    ex.inst_fields = dict(INST_FIELDS)
    ex.inst_fields.update(lib_pb.FIELDS)
    ex.lazyfacts = []
    ex.keyabs = ex.seq_app_key = ex.count_facts = ex.may_release = None
    ex.history_props = {'C10'} if 'C10' in task.props else set(task.props)
    ex.frame_props = set(task.props) | {'C07'} if 'C07' in task.props else set(task.props)
    ex.deadline = time.time() + task.timeout
    st = State()
    try:
        args, post = task.body(ex, st)
        if ex.hints:
            for f in ex.hints.base(): st.assume(f)
        entry_owned = set(st.owned)
        for s, ret in ex.guarded(ex.run(st, mod.funcs[name], args)):
            if not ex.feasible(s): continue
            res.exits += 1
            ob = lambda f, what, props=None: ex.oblige(s, f, '%s: %s' % (task.fn, what), props or task.props)
            def cover(what, f=True):
                if what in res.covers and res.covers[what]: return
                r = ex.feasible(s, f if is_sym(f) else None, exact=True) if f is not False else False
                res.covers[what] = res.covers.get(what, False) or bool(r)
            ob.cover = cover
            try:
                post(ex, s, ret, ob)
            except PathEnd: pass
            if task.safety:
                leak = [r for i, r in s.owned.items() if i not in entry_owned]
                ex.oblige(s, not leak, '%s: releases every resource it acquires' % task.fn, task.safety)
    except (Unsupported, RecursionError, z3.Z3Exception, AttributeError, KeyError, TypeError, IndexError, AssertionError, NotImplementedError, ValueError) as e:
        import traceback
        res.unsupported = '%s: %s' % (type(e).__name__, str(e)[:300])
        res.trace = traceback.format_exc()
    res.obls = ex.obls
    res.stats = ex.stats
    res.time = time.time() - t0
    return res

# ---- common object families --------------------------------------------------------------------
INST_FIELDS = {}

def elem_string(ex, st, term, off, kind, size):
    seq, i = term
    if off != 0: return None
    if kind == 'string':
        t = SEQ_AT_STR(seq, i)
        return StrV(t, ver=('elem', str(seq), str(simp(i))))
    return None
INST_FIELDS['elem:string'] = elem_string

def sym_str_vec(st, name):
    """const std::vector<std::string>& argument with arbitrary content"""
    seq = z3.Const(name, SeqS)
    n = SEQ_LEN(seq)
    st.assume(z3.And(n >= 0, n < (1 << 58)))
    return seq, n, VecV('string', 32, seq=seq, ln=n)

def obj_region(name, fields, size=None, const=False):
    """an argument object: fields {offset: (size, value)}"""
    r = Region(name, size=size)
    return r, fields

def place(st, r, fields):
    for o, (sz, v) in fields.items(): st.setcell(r, o, sz, v)
    return Ptr(r)
