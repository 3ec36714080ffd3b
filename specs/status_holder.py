"""Contracts of WithStatus (C18), as compiled into src/jwks.cc."""
import z3
from irv.vals import *
from irv.spec import *
from . import jwt as J

TU = 'src/jwks.cc'
NEED_PROBE = True
L = J.L
OFF = 0

def holder(st):
    s0 = z3.Int('held')
    st.assume(z3.And(s0 >= 0, s0 < (1 << 31)))
    return s0, place(st, Region('holder', size=L['sizeof.WithStatus']), {OFF: (4, s0)})

def now(ex, s, p): return zi(ex.load(s, p.add(OFF), ('i', 32)))

def update(ex, st):
    s0, p = holder(st)
    x = z3.Int('new')
    st.assume(z3.And(x >= 0, x < (1 << 31)))
    def post(ex, s, ret, ob):
        ob(now(ex, s, p) == z3.If(s0 == L['Status.Ok'], x, s0), 'keeps the first failure')
        ob.cover('kept', s0 != L['Status.Ok']); ob.cover('replaced', s0 == L['Status.Ok'])
    return [p, x], post

def reset(ex, st):
    s0, p = holder(st)
    x = z3.Int('new')
    st.assume(z3.And(x >= 0, x < (1 << 31)))
    def post(ex, s, ret, ob):
        ob(now(ex, s, p) == x, 'a reset replaces whatever was held')
        ob.cover('exit')
    return [p, x], post

def get(ex, st):
    s0, p = holder(st)
    def post(ex, s, ret, ob):
        ob(zi(ret) == s0, 'the held status is reported')
        ob(now(ex, s, p) == s0, 'reading does not change it')
        ob.cover('exit')
    return [p], post

def init(ex, st):
    p = Ptr(Region('holder', size=L['sizeof.WithStatus']))
    def post(ex, s, ret, ob):
        ob(now(ex, s, p) == L['Status.Ok'], 'a new holder holds Ok')
        ob.cover('exit')
    return [p], post

TASKS = [Task('WithStatus::updateStatus(Status)', ['C18'], update, cover=('kept', 'replaced')),
         Task('WithStatus::resetStatus(Status)', ['C18'], reset, cover=('exit',)),
         Task('WithStatus::getStatus() const', ['C18'], get, cover=('exit',)),
         Task('WithStatus::WithStatus()', ['C18'], init, cover=('exit',))]
