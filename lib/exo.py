"""Reads and writes Exodus II files through the Exodus C library (independent of NimbleSM's own reader and writer)."""
import ctypes as C, numpy as np, os
_l = C.CDLL("/usr/lib/x86_64-linux-gnu/libexoIIv2c.so")
_l.ex_opts(0)
EX_READ, EX_CLOBBER = 0x0002, 0x0008
ELEM_BLOCK, NODE_SET, SIDE_SET, ELEM_MAP, NODE_MAP = 1, 2, 3, 4, 5
GLOBAL, NODAL = 13, 14
MAXS = 33

class Mesh:
    """coords (n,3); blocks: list of dict(id,name,conn (ne,8) 0-based,type,elem_gid); node_sets: list of dict(id,name,nodes,df);
    side_sets: list of dict(id,name,elems,sides,df); node_gid: (n,) 1-based or None; elem_gid: (ne,) 1-based or None"""
    def __init__(s):
        s.title = "verif"; s.dim = 3; s.coords = np.zeros((0, 3)); s.blocks = []; s.node_sets = []; s.side_sets = []
        s.node_gid = None; s.elem_gid = None; s.orig_map = False
        s.node_map2 = None; s.elem_map2 = None
    def num_elem(s): return sum(len(b["conn"]) for b in s.blocks)
    def copy(s):
        import copy
        return copy.deepcopy(s)

def _ck(r, what):
    if r < 0: raise IOError("exodus %s: %d" % (what, r))

def _d(a): return a.ctypes.data_as(C.c_void_p)

FORMATS = {"": 0, "normal": 0x10, "large": 0x20, "netcdf4": 0x40, "int64": 0x1c00, "netcdf4 int64": 0x1c40}  # ways the library stores the same content
def write(path, m, io=8, fmt=None):
    fmt = getattr(m, "fmt", "") if fmt is None else fmt
    cw, iw = C.c_int(8), C.c_int(io)
    f = _l.ex_create_int(path.encode(), EX_CLOBBER | FORMATS[fmt], C.byref(cw), C.byref(iw), 602)
    if f < 0: raise IOError(path)
    longest = max([len(q.get("name") or "") for q in m.blocks + m.node_sets + m.side_sets] + [0])
    if longest > 32: _l.ex_set_max_name_length(f, longest)
    n = len(m.coords)
    _ck(_l.ex_put_init(f, m.title.encode(), C.c_int64(m.dim), C.c_int64(n), C.c_int64(m.num_elem()), C.c_int64(len(m.blocks)),
                       C.c_int64(len(m.node_sets)), C.c_int64(len(m.side_sets))), "init")
    if n:
        x, y, z = (np.ascontiguousarray(m.coords[:, i], dtype=np.float64) for i in range(3))
        _ck(_l.ex_put_coord(f, _d(x), _d(y), _d(z)), "coord")
    for b in m.blocks:
        cn = np.ascontiguousarray(b["conn"], dtype=np.int32) + 1
        npe = cn.shape[1] if cn.ndim == 2 and cn.shape[1] else 8
        _ck(_l.ex_put_block(f, ELEM_BLOCK, C.c_int64(b["id"]), b.get("type", "HEX8").encode(), C.c_int64(len(cn)), C.c_int64(npe),
                            C.c_int64(0), C.c_int64(0), C.c_int64(0)), "block")
        if b.get("name"): _ck(_l.ex_put_name(f, ELEM_BLOCK, C.c_int64(b["id"]), b["name"].encode()), "bname")
        if len(cn): _ck(_l.ex_put_conn(f, ELEM_BLOCK, C.c_int64(b["id"]), _d(cn), None, None), "conn")
    for s in m.node_sets:
        nd = np.ascontiguousarray(s["nodes"], dtype=np.int32) + 1
        df = s.get("df"); nf = 0 if df is None else len(df)
        _ck(_l.ex_put_set_param(f, NODE_SET, C.c_int64(s["id"]), C.c_int64(len(nd)), C.c_int64(nf)), "nsparam")
        if len(nd): _ck(_l.ex_put_set(f, NODE_SET, C.c_int64(s["id"]), _d(nd), None), "ns")
        if nf:
            dd = np.ascontiguousarray(df, dtype=np.float64)
            _ck(_l.ex_put_set_dist_fact(f, NODE_SET, C.c_int64(s["id"]), _d(dd)), "nsdf")
        if s.get("name"): _ck(_l.ex_put_name(f, NODE_SET, C.c_int64(s["id"]), s["name"].encode()), "nsname")
    for s in m.side_sets:
        el = np.ascontiguousarray(s["elems"], dtype=np.int32) + 1
        sd = np.ascontiguousarray(s["sides"], dtype=np.int32) + 1
        df = s.get("df"); nf = 0 if df is None else len(df)
        _ck(_l.ex_put_set_param(f, SIDE_SET, C.c_int64(s["id"]), C.c_int64(len(el)), C.c_int64(nf)), "ssparam")
        if len(el): _ck(_l.ex_put_set(f, SIDE_SET, C.c_int64(s["id"]), _d(el), _d(sd)), "ss")
        if nf:
            dd = np.ascontiguousarray(df, dtype=np.float64)
            _ck(_l.ex_put_set_dist_fact(f, SIDE_SET, C.c_int64(s["id"]), _d(dd)), "ssdf")
        if s.get("name"): _ck(_l.ex_put_name(f, SIDE_SET, C.c_int64(s["id"]), s["name"].encode()), "ssname")
    if m.node_gid is not None and n:
        g = np.ascontiguousarray(m.node_gid, dtype=np.int32); _ck(_l.ex_put_id_map(f, NODE_MAP, _d(g)), "nmap")
    if m.elem_gid is not None and m.num_elem():
        g = np.ascontiguousarray(m.elem_gid, dtype=np.int32); _ck(_l.ex_put_id_map(f, ELEM_MAP, _d(g)), "emap")
    if m.node_map2 is not None or m.elem_map2 is not None:
        _ck(_l.ex_put_map_param(f, int(m.node_map2 is not None), int(m.elem_map2 is not None)), "mapparam")
        if m.node_map2 is not None:
            g = np.ascontiguousarray(m.node_map2[1], dtype=np.int32)
            _ck(_l.ex_put_num_map(f, NODE_MAP, C.c_int64(1), _d(g)), "nmap2")
            _ck(_l.ex_put_name(f, NODE_MAP, C.c_int64(1), m.node_map2[0].encode()), "nmap2n")
        if m.elem_map2 is not None:
            g = np.ascontiguousarray(m.elem_map2[1], dtype=np.int32)
            _ck(_l.ex_put_num_map(f, ELEM_MAP, C.c_int64(1), _d(g)), "emap2")
            _ck(_l.ex_put_name(f, ELEM_MAP, C.c_int64(1), m.elem_map2[0].encode()), "emap2n")
    _ck(_l.ex_close(f), "close")

class Result(Mesh):
    """as Mesh plus times (nt,), nodal {name: (nt,n)}, elem {block_id: {name: (nt,ne)}}, elem_names, nodal_names, glob_names"""

def read(path):
    if not os.path.exists(path): raise IOError("no such file: " + path)
    cw, iw, v = C.c_int(8), C.c_int(0), C.c_float()
    f = _l.ex_open_int(path.encode(), EX_READ, C.byref(cw), C.byref(iw), C.byref(v), 602)
    if f < 0: raise IOError("cannot open " + path)
    try:
        _l.ex_set_max_name_length(f, 200); return _read(f)
    finally:
        _l.ex_close(f)

def _name(f, t, i):
    b = C.create_string_buffer(256); _l.ex_get_name(f, t, C.c_int64(i), b); return b.value.decode("latin1")

def _names(f, t, n):
    if n == 0: return []
    bufs = [C.create_string_buffer(256) for _ in range(n)]
    arr = (C.c_char_p * n)(*[C.cast(b, C.c_char_p) for b in bufs])
    _ck(_l.ex_get_variable_names(f, t, n, arr), "varnames")
    return [b.value.decode("latin1") for b in bufs]

def _read(f):
    m = Result()
    title = C.create_string_buffer(256); v = [C.c_int() for _ in range(6)]
    _ck(_l.ex_get_init(f, title, *[C.byref(x) for x in v]), "init")
    m.title = title.value.decode("latin1")
    m.dim, n, ne, nb, nns, nss = [x.value for x in v]
    xyz = [np.zeros(n) for _ in range(3)]
    if n: _ck(_l.ex_get_coord(f, *[_d(a) for a in xyz]), "coord")
    m.coords = np.stack(xyz, 1) if n else np.zeros((0, 3))
    g = np.zeros(n, np.int32)
    if n: _ck(_l.ex_get_id_map(f, NODE_MAP, _d(g)), "nmap")
    m.node_gid = g
    g = np.zeros(ne, np.int32)
    if ne: _ck(_l.ex_get_id_map(f, ELEM_MAP, _d(g)), "emap")
    m.elem_gid = g
    ids = np.zeros(nb, np.int32)
    if nb: _ck(_l.ex_get_ids(f, ELEM_BLOCK, _d(ids)), "ids")
    off = 0
    for i in ids:
        t = C.create_string_buffer(256); q = [C.c_int() for _ in range(5)]
        _ck(_l.ex_get_block(f, ELEM_BLOCK, C.c_int64(int(i)), t, *[C.byref(x) for x in q]), "block")
        cnt, npe = q[0].value, q[1].value
        cn = np.zeros((cnt, npe), np.int32)
        if cnt and npe: _ck(_l.ex_get_conn(f, ELEM_BLOCK, C.c_int64(int(i)), _d(cn), None, None), "conn")
        m.blocks.append(dict(id=int(i), name=_name(f, ELEM_BLOCK, int(i)), type=t.value.decode("latin1"), conn=cn - 1,
                             elem_gid=m.elem_gid[off:off + cnt].copy(), npe=npe)); off += cnt
    for kind, num, lst in ((NODE_SET, nns, m.node_sets), (SIDE_SET, nss, m.side_sets)):
        ids = np.zeros(num, np.int32)
        if num: _ck(_l.ex_get_ids(f, kind, _d(ids)), "ids")
        for i in ids:
            a, b = C.c_int(), C.c_int()
            _ck(_l.ex_get_set_param(f, kind, C.c_int64(int(i)), C.byref(a), C.byref(b)), "setparam")
            e = np.zeros(a.value, np.int32); x = np.zeros(a.value, np.int32); df = np.zeros(b.value)
            if a.value: _ck(_l.ex_get_set(f, kind, C.c_int64(int(i)), _d(e), _d(x) if kind == SIDE_SET else None), "set")
            if b.value: _ck(_l.ex_get_set_dist_fact(f, kind, C.c_int64(int(i)), _d(df)), "df")
            d = dict(id=int(i), name=_name(f, kind, int(i)), df=df)
            if kind == NODE_SET: d["nodes"] = e - 1
            else: d["elems"] = e - 1; d["sides"] = x - 1
            lst.append(d)
    nt = int(_l.ex_inquire_int(f, 16))  # EX_INQ_TIME
    m.times = np.zeros(max(nt, 0))
    if nt > 0: _ck(_l.ex_get_all_times(f, _d(m.times)), "times")
    def nvar(t):
        q = C.c_int(); _ck(_l.ex_get_variable_param(f, t, C.byref(q)), "varparam"); return q.value
    m.glob_names = _names(f, GLOBAL, nvar(GLOBAL))
    m.nodal_names = _names(f, NODAL, nvar(NODAL))
    m.elem_names = _names(f, ELEM_BLOCK, nvar(ELEM_BLOCK))
    m.glob = {nm: np.zeros(nt) for nm in m.glob_names}
    for s in range(nt if m.glob_names else 0):
        a = np.zeros(len(m.glob_names)); _ck(_l.ex_get_var(f, s + 1, GLOBAL, 1, C.c_int64(1), C.c_int64(len(a)), _d(a)), "global")
        for nm, q in zip(m.glob_names, a): m.glob[nm][s] = q
    m.nodal = {}
    for k, nm in enumerate(m.nodal_names):
        a = np.zeros((nt, n))
        for s in range(nt):
            if n: _ck(_l.ex_get_var(f, s + 1, NODAL, k + 1, C.c_int64(1), C.c_int64(n), _d(a[s])), "nodal")
        m.nodal.setdefault(nm, a)
    m.truth = None
    m.elem = {}
    if m.elem_names:
        tt = np.zeros((len(m.blocks), len(m.elem_names)), np.int32)
        _ck(_l.ex_get_truth_table(f, ELEM_BLOCK, len(m.blocks), len(m.elem_names), _d(tt)), "tt")
        m.truth = tt
        for ib, b in enumerate(m.blocks):
            m.elem[b["id"]] = {}
            for k, nm in enumerate(m.elem_names):
                if not tt[ib, k] or len(b["conn"]) == 0: continue
                a = np.zeros((nt, len(b["conn"])))
                for s in range(nt):
                    r = _l.ex_get_var(f, s + 1, ELEM_BLOCK, k + 1, C.c_int64(b["id"]), C.c_int64(len(b["conn"])), _d(a[s]))
                    _ck(r, "elem var")
                m.elem[b["id"]].setdefault(nm, a)
    return m

def aux_maps(path):
    """the numbered node and element maps (None where absent)"""
    cw, iw, v = C.c_int(8), C.c_int(0), C.c_float()
    f = _l.ex_open_int(path.encode(), EX_READ, C.byref(cw), C.byref(iw), C.byref(v), 602)
    a, b = C.c_int(), C.c_int(); _ck(_l.ex_get_map_param(f, C.byref(a), C.byref(b)), "mapparam"); out = []
    t = C.create_string_buffer(256); q = [C.c_int() for _ in range(6)]; _ck(_l.ex_get_init(f, t, *[C.byref(x) for x in q]), "init")
    for kind, cnt, n in ((NODE_MAP, a.value, q[1].value), (ELEM_MAP, b.value, q[2].value)):
        g = None
        if cnt:
            g = np.zeros(n, np.int32)
            if n: _ck(_l.ex_get_num_map(f, kind, C.c_int64(1), _d(g)), "nummap")
        out.append(g)
    _l.ex_close(f)
    return out
