"""Python face of the system-call seam (shim.c, preloaded)."""
import ctypes
import errno

OPEN, READ, WRITE, CLOSE, FSYNC, RENAME, UNLINK, MMAP, TRUNC, LINK, META, STAT = range(1, 13)
ANY = 0
KINDS = {OPEN: 'open', READ: 'read', WRITE: 'write', CLOSE: 'close', FSYNC: 'fsync', RENAME: 'rename',
         UNLINK: 'unlink', MMAP: 'mmap', TRUNC: 'truncate', LINK: 'link', META: 'meta', STAT: 'stat'}
ERR, SHORT, CRASH_BEFORE, CRASH_AFTER, TORN_CRASH, TORN_ERR, SIGNAL = range(1, 8)
ACTIONS = {ERR: 'error', SHORT: 'short', CRASH_BEFORE: 'crash-before', CRASH_AFTER: 'crash-after',
           TORN_CRASH: 'torn-write-crash', TORN_ERR: 'torn-write-error', SIGNAL: 'interrupt'}


class Op(ctypes.Structure):
    _fields_ = [('kind', ctypes.c_int32), ('fd', ctypes.c_int32),
                ('off', ctypes.c_int64), ('req', ctypes.c_int64), ('ret', ctypes.c_int64), ('ino', ctypes.c_int64),
                ('data', ctypes.c_int64), ('len', ctypes.c_int64),
                ('err', ctypes.c_int32), ('fault', ctypes.c_int32), ('name', ctypes.c_int32), ('name2', ctypes.c_int32)]


class Rec:
    __slots__ = ('i', 'kind', 'fd', 'off', 'req', 'ret', 'ino', 'data', 'len', 'err', 'fault', 'name', 'name2')

    def __repr__(self):
        return '%s(%s%s fd=%d off=%d req=%d ret=%d err=%s fault=%s)' % (
            KINDS.get(self.kind), self.name, ' -> ' + self.name2 if self.name2 else '', self.fd, self.off, self.req,
            self.ret, errno.errorcode.get(self.err, self.err), ACTIONS.get(self.fault, ''))


try:
    _l = ctypes.CDLL(None)
    _l.sim_start
    available = True
except AttributeError:
    available = False

if available:
    i32, i64 = ctypes.c_int, ctypes.c_int64
    for _n, _a, _r in [('sim_reset', [], None), ('sim_start', [], None), ('sim_stop', [], None),
                       ('sim_active', [], i32),
                       ('sim_prefix', [ctypes.c_char_p], None), ('sim_track_fd', [i32, ctypes.c_char_p], None),
                       ('sim_fault', [i32, i32, i32, i32, i64, i64], None), ('sim_clear_faults', [], None), ('sim_fault_file', [ctypes.c_char_p], None),
                       ('sim_cap', [i32, i32], None), ('sim_readonly', [i32], None), ('sim_clock', [i64], None),
                       ('sim_clock_clear', [], None), ('sim_wild', [i64], None), ('sim_wild_reads', [], i64), ('sim_wild_seconds', [], i64), ('sim_clock_reads', [], i64), ('sim_nops', [], i64),
                       ('sim_total', [], i64), ('sim_kindcount', [i32], i64), ('sim_fired', [i32], i64),
                       ('sim_ops', [], ctypes.POINTER(Op)), ('sim_arena', [], ctypes.c_void_p),
                       ('sim_name', [i32], ctypes.c_char_p), ('sim_random', [i64], None), ('sim_stat', [i32], None),
                       ('sim_gate_fds', [i32, i32], None), ('sim_gate', [i32, i32, i32], None)]:
        f = getattr(_l, _n)
        f.argtypes, f.restype = _a, _r

    reset, start, stop, active = _l.sim_reset, _l.sim_start, _l.sim_stop, _l.sim_active
    clear_faults, cap, readonly = _l.sim_clear_faults, _l.sim_cap, _l.sim_readonly
    wild, wild_reads, wild_seconds = _l.sim_wild, _l.sim_wild_reads, _l.sim_wild_seconds
    clock, clock_clear, clock_reads = _l.sim_clock, _l.sim_clock_clear, _l.sim_clock_reads
    stat = _l.sim_stat
    random, gate_fds = _l.sim_random, _l.sim_gate_fds
    nops, total, kindcount, fired = _l.sim_nops, _l.sim_total, _l.sim_kindcount, _l.sim_fired


def prefix(p):
    _l.sim_prefix(p.encode())


def track_fd(fd, name):
    _l.sim_track_fd(fd, name.encode())


def fault(kind, index, count=1, action=ERR, arg=0, arg2=0, file=None):
    """file: end of the path of the only file whose calls count"""
    _l.sim_fault(kind, index, count, action, arg, arg2)
    if file:
        _l.sim_fault_file(file.encode())


def faults(plan):
    """plan: list of [kind, index, count, action, arg, arg2]"""
    for f in plan:
        fault(*f)


def ops():
    n = nops()
    a = _l.sim_ops()
    base = _l.sim_arena()
    out = []
    for i in range(n):
        o, r = a[i], Rec()
        r.i = i
        for k in ('kind', 'fd', 'off', 'req', 'ret', 'ino', 'len', 'err', 'fault'):
            setattr(r, k, getattr(o, k))
        r.data = ctypes.string_at(base + o.data, o.len) if o.data >= 0 else None
        r.name = _l.sim_name(o.name).decode(errors='replace') if o.name >= 0 else None
        r.name2 = _l.sim_name(o.name2).decode(errors='replace') if o.name2 >= 0 else None
        out.append(r)
    return out


def fired_counts():
    d = {ACTIONS[a]: fired(a) for a in ACTIONS if fired(a)}
    if fired(0):
        d['read-only refusal'] = fired(0)
    if fired(15):
        d['short/EINTR transfer'] = fired(15)
    if fired(16):
        d['no input yet'] = fired(16)
    return d
