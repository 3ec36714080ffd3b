"""Contract of src/status.cc (C18)."""
import z3
from irv.vals import *
from irv.spec import *
from . import jwt as J

TU = 'src/status.cc'
NEED_PROBE = True
L = J.L

def message(ex, st):
    out = Ptr(Region('result', size=32))
    s = z3.Int('status')
    names = {v: k[7:] for k, v in L.items() if k.startswith('Status.')}
    st.assume(z3.Or(*[s == v for v in sorted(names)]))
    msg = {}            # status -> message
    def post(ex, st, ret, ob):
        t = simp(ex.getstr(st, out).t)
        ob(z3.Length(t) > 0, 'the message of every status is not empty')
        ob(z3.Implies(s == L['Status.Ok'], t == z3.StringVal('OK')), 'the message of Ok is OK')
        here = []
        for v in sorted(names):
            if ex.feasible(st, s == v): here.append(v)
        if not z3.is_string_value(t): raise Unsupported('message is not a constant')
        m = t.as_string()
        same_ = [names[v] for v in here] + [names[v] for v in msg if msg[v] == m and v not in here]
        for v in here: msg[v] = m
        ob(len(same_) <= 1, 'different statuses have different messages')
        ob.cover('some status')
        for v in here: ob.cover(names[v], s == v)
    return [out, s], post

TASKS = [Task('getStatusString[abi:cxx11](Status)', ['C18'], message, cover=('some status',), abs_only=True)]
