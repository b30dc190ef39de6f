"""Tables read from files: the part of pandas that the readers use.

TRUSTED contract of pandas, like lib.py:

  pd.read_csv(filename, options)   a table determined by the file and the
                                   options: a number of rows, named columns
                                   with pairwise different names (also after
                                   stripping spaces), one cell per row and
                                   column; with header=None a matrix
  df[col], df.iloc[i][col], row[col] of iterrows
                                   the cell of the row in the column of that
                                   name (KeyError without one)
  df[mask]                         the rows with the mask, in their order
  df.columns = stripped names, df.drop, df[col] = values
                                   rename, remove and replace columns
  row[cols].to_dict()              {col: cell} for the columns of cols

Cells are numbers (a text in a cell is an opaque one); int(cell) is an
uninterpreted function of row and column.
"""

import ast

from . import graphs, seqs, sets, solver
from . import terms as T
from .terms import *
from .terms import atom
from .values import *

M = sym("columns of tables", "int")


def text(lib, x):
    """code of a string"""
    x = lib.I.deref(x)
    if isinstance(x, SymStr):
        return x.p
    if isinstance(x, str):
        return code(x)
    raise Unsupported("text")


def as_int(x):
    """int(x) of a cell"""
    a = x.args[0][0][0][0] if len(x.args) == 1 and len(x.args[0][0]) == 1 else None
    if a is None or atom_poly(a) is not x or a.op != "elem" or len(a.args[0]) != 1:
        return None
    b = a.args[0][0][0]
    if isinstance(b, T.Tensor) or b.op != "msym" or not str(b.args[0]).startswith("table"):
        return None
    return fn("iseq", atom("seqf", "int:" + b.args[0], 0), a.args[1])


def strip(s):
    return SymStr(fn("iseq", atom("seqf", "strip", 0), (s.p,)))


def join(parts):
    """text made of constant strings and symbolic ones"""
    if all(isinstance(p, str) for p in parts):
        return "".join(parts)
    flat = []
    for p in parts:
        if isinstance(p, SymStr):
            flat += TEXTS.get(p.p, [p])
        elif flat and isinstance(flat[-1], str):
            flat[-1] += p
        else:
            flat.append(p)
    parts = []
    for p in flat:
        if isinstance(p, str) and parts and isinstance(parts[-1], str):
            parts[-1] += p
        elif p != "":
            parts.append(p)
    shape = "\0".join(p if isinstance(p, str) else "\1" for p in parts)
    out = fn("iseq", atom("seqf", "text:" + shape, 0), tuple(p.p for p in parts if not isinstance(p, str)))
    TEXTS[out] = parts
    return SymStr(out)


TEXTS = {}


class Table:
    """name, number of rows and of columns, and what has been changed"""

    def __init__(self, name, n, m, space="raw", dropped=(), over=(), mask=None):
        self.name, self.n, self.m = name, n, m
        self.space, self.dropped, self.over, self.mask = space, tuple(dropped), tuple(over), mask

    def but(self, **kw):
        d = dict(name=self.name, n=self.n, m=self.m, space=self.space, dropped=self.dropped, over=self.over, mask=self.mask)
        d.update(kw)
        return Table(**d)

    def column_names(self):
        """all columns of the file, dropped ones too"""
        return seqs.named_seq(f"{self.name}:{self.space}", self.m, 0)

    def key(self):
        return (self.name, self.space, self.dropped, tuple((p, t) for p, t in self.over), None if self.mask is None else self.mask[1])

    def cells(self):
        return T.msym(f"{self.name}:{self.space}", self.n, M)


def make(name):
    n, m = sym(f"rows:{name}", "int"), sym(f"columns:{name}", "int")
    for space in ("raw", "strip"):
        f = lambda k, space=space: fn("iseq", atom("seqf", f"{name}:{space}", 0), (num(k),))
        solver.SEQ_FACTS[f"{name}:{space}"] = (m, lambda k: TRUE, lambda k, q, f=f: c_not(eqc(f(k), f(q))))
    return Table(name, n, m)


def register(L):
    I, E = L.I, L.ext
    frame = ClassVal("DataFrame", "pandas", [], {})
    row_ = ClassVal("Series", "pandas", [], {})
    ix_ = ClassVal("$iloc", "pandas", [], {})
    P = lambda f: PropertyVal(Method(f))

    def tab(me):
        return I.deref(me).attrs["table"]

    def put(me, t):
        o = I.deref(me)
        I.store(me, Inst(o.cls, {**o.attrs, "table": t}, o.name))

    def new(t):
        I.assume(le(ZERO, t.n))
        I.assume(le(ZERO, t.m))
        return I.alloc(Inst(frame, dict(table=t), "DataFrame"))
    L.new_table = lambda name: new(make(name))

    def read_csv(filepath_or_buffer, sep=",", delimiter=None, header="infer", skiprows=None):
        name = text(L, filepath_or_buffer)
        d = text(L, delimiter if L.I.deref(delimiter) is not None else sep)
        sk = ZERO if I.deref(skiprows) is None else L.scalar(skiprows)
        h = I.deref(header)
        if isinstance(h, SymStr):
            hd = h.p
        elif h is None:
            hd = ZERO
        elif h == "infer":
            hd = code("infer")
        else:
            raise Unsupported("header of a table")
        key = f"table{atom('table', name, d, sk, hd).id}"
        if h is None:
            n, m = sym(f"rows:{key}", "int"), sym(f"columns:{key}", "int")
            I.assume(le(ZERO, n))
            I.assume(le(ZERO, m))
            return I.alloc(Inst(matrix, dict(t=T.msym(key, n, m)), "DataFrame"))
        return new(make(key))
    E["pandas.read_csv"] = Builtin("pandas.read_csv", read_csv)
    E["os.path.exists"] = Builtin("os.path.exists", lambda p: L.as_value(T.cond("isfile", text(L, p))))
    E["os.path.isfile"] = E["os.path.exists"]
    E["pkg_resources.resource_filename"] = Builtin("resource_filename", lambda p, f: f"resource:{p}/{f}")

    # ------------------------------------------------------------ matrices
    matrix = ClassVal("DataFrame", "pandas", [frame], {})
    I.incidence = {}

    def mt(me):
        t = I.deref(me).attrs["t"]
        (w, c), = t.args[1]
        base, tr = w[0]
        known = I.incidence.get(base.args[0])
        if known is None:
            return t
        return T.t_transpose(known) if tr else known
    arr = lambda me: I.arr(mt(me), "nd")
    matrix.attrs.update({
        "to_numpy": Method(lambda me: arr(me)), "values": P(arr), "shape": P(lambda me: tuple(mt(me).shape)),
        "T": P(lambda me: I.alloc(Inst(matrix, dict(t=T.t_transpose(mt(me))), "DataFrame"))),
        "transpose": Method(lambda me: I.alloc(Inst(matrix, dict(t=T.t_transpose(mt(me))), "DataFrame"))),
        "__len__": Method(lambda me: mt(me).shape[0]),
        "empty": P(lambda me: L.as_value(c_or(eqc(mt(me).shape[0], ZERO), eqc(mt(me).shape[1], ZERO)))),
        "iloc": P(lambda me: arr(me)),
    })

    # -------------------------------------------------------------- columns
    def has_column(t, p):
        v = T.fresh_index()
        found = T.exists(v, t.m, eqc(t.column_names().at(atom_poly(v)), p))
        new_ = c_or(*[eqc(q, p) for q, _ in t.over])
        return c_and(c_or(found, new_), *[c_not(eqc(q, p)) for q in t.dropped])

    L.has_column = has_column

    def column(me, t, name):
        """function row -> cell"""
        p = text(L, name)
        if not I.truth(has_column(t, p)):
            raise PyRaise("KeyError")
        return lambda k: cell(t, p, k)

    def cell(t, p, k):
        for q, v in reversed(t.over):
            if q is p or I.entails(eqc(q, p)):
                return elem(v, (num(k),))
            if not I.entails(c_not(eqc(q, p))):
                return ite(eqc(q, p), elem(v, (num(k),)), cell(t.but(over=[x for x in t.over if x[0] is not q]), p, k))
        return elem(t.cells(), (num(k), p))

    def rows_of(t):
        return t.n if t.mask is None else L.tensor_of(t.mask[0])[0].shape[0]

    # a column: name and table; positions are the rows
    series = ClassVal("Series", "pandas", [], {})
    picked = ClassVal("ndarray", "numpy", [], {})

    def vector(me, t, name):
        column(me, t, name)
        return I.alloc(Inst(series, dict(table=t, p=text(L, name)), "series"))

    def values(me):
        o = I.deref(me)
        t, p = o.attrs["table"], o.attrs["p"]
        if t.mask is not None:
            return I.alloc(Inst(picked, dict(table=t, p=p), "ndarray"))
        v = T.fresh_index()
        return I.arr(T.lam([v], (t.n,), cell(t, p, atom_poly(v))), "nd")

    def whole(me):
        """all values of some rows"""
        t, p = I.deref(me).attrs["table"], I.deref(me).attrs["p"]
        v = T.fresh_index()
        return L.getitem(I.arr(T.lam([v], (t.n,), cell(t, p, atom_poly(v))), "nd"), t.mask[0])

    def pick(me, ix):
        """values[0] of the rows with a condition: the first such row"""
        t, p = I.deref(me).attrs["table"], I.deref(me).attrs["p"]
        m = I.deref(t.mask[0])
        if not L.is_scalar(I.deref(ix)) or L.scalar(ix) is not ZERO or not isinstance(m, IndexArr):
            return L.getitem(whole(me), ix)
        bvs, n, body = m.f.args
        v = T.fresh_index()
        c = subst(body, {bvs[0]: atom_poly(v)})
        if not I.truth(T.exists(v, n, c)):
            raise PyRaise("IndexError")
        return cell(t, p, T.first_ix(v, n, c))

    def some(me):
        t = I.deref(me).attrs["table"]
        if t.mask is None:
            return lt(ZERO, t.n)
        m = I.deref(t.mask[0])
        if not isinstance(m, IndexArr):
            return lt(ZERO, rows_of(t))
        bvs, n, body = m.f.args
        v = T.fresh_index()
        return T.exists(v, n, subst(body, {bvs[0]: atom_poly(v)}))
    as_array = lambda me: values(me) if I.deref(me).attrs["table"].mask is None else whole(me)
    L.series_array = lambda x: as_array(x) if isinstance(I.deref(x), Inst) and I.deref(x).cls in (series, picked) else x
    at = ClassVal("$iloc", "pandas", [], {})
    at.attrs["__getitem__"] = Method(lambda me, ix: L.getitem(values(I.deref(me).attrs["of"]), ix))
    for k in (series, picked):
        k.attrs.update({
            "__len__": Method(lambda me: rows_of(I.deref(me).attrs["table"])), "tolist": Method(values), "__iter__": Method(lambda me: L.iterate(as_array(me))),
            "size": P(lambda me: rows_of(I.deref(me).attrs["table"])),
        })
    series.attrs.update({
        "values": P(values), "to_numpy": Method(values), "empty": P(lambda me: L.as_value(c_not(some(me)))),
        "iloc": P(lambda me: I.alloc(Inst(at, dict(of=me), "iloc"))),
    })
    picked.attrs["__getitem__"] = Method(pick)

    def get_item(me, ix):
        t = tab(me)
        o = I.deref(ix)
        if isinstance(o, (str, SymStr)):
            return vector(me, t, ix)
        if isinstance(o, BoolArr):
            if t.mask is not None:
                raise Unsupported("rows of rows")
            if not I.entails(eqc(o.shape[0], t.n)):
                raise Unsupported("mask of another length")
            m = L.ext["numpy.where"].fn(ix)
            m = L.iterate(m)[0]
            return new_rows(t, m)
        raise Unsupported("index of a table")

    def new_rows(t, m):
        return I.alloc(Inst(frame, dict(table=t.but(mask=(m, L.tensor_of(m)[0]))), "DataFrame"))

    def set_item(me, name, val):
        t = tab(me)
        if t.mask is not None:
            raise Unsupported("store into rows of a table")
        if L.is_scalar(I.deref(val)):
            v = T.full((t.n,), L.scalar(val))
        else:
            v = L.tensor_of(val)[0]
            if v.ndim != 1 or not I.entails(eqc(v.shape[0], t.n)):
                raise Unsupported("column of another length")
        p = text(L, name)
        if not I.entails(has_column(t, p)):
            raise Unsupported("new column")
        put(me, t.but(over=tuple(x for x in t.over if x[0] is not p) + ((p, v),)))

    def columns(me):
        t = tab(me)
        s = t.column_names()
        wrap = lambda k: SymStr(s.at(num(k)))
        if not t.dropped:
            return I.alloc(ListObj(seq=SeqVal(t.m, wrap, key=None)))
        return I.alloc(ListObj(seq=graphs.FilterSeq(t.m, lambda k: c_and(*[c_not(eqc(s.at(num(k)), q)) for q in t.dropped]), wrap)))

    def set_columns(me, names):
        t = tab(me)
        s = L.iterate(names)
        if t.space != "raw" or t.dropped or t.over or not isinstance(s, SeqVal) or isinstance(s, graphs.FilterSeq) or s.n is not t.m:
            raise Unsupported("new column names")
        k = atom_poly(T.fresh_index())
        x = s.at(k)
        if not isinstance(x, SymStr) or x.p is not strip(SymStr(t.column_names().at(k))).p:
            raise Unsupported("new column names")
        put(me, t.but(space="strip"))

    def drop(me, labels=None, axis=ZERO, columns=None, inplace=False):
        t = tab(me)
        if I.deref(columns) is None:
            if L.scalar(axis).as_int() != 1:
                raise Unsupported("drop rows")
            columns = labels
        names = L.iterate(columns)
        if not isinstance(names, tuple):
            raise Unsupported("drop")
        ps = [text(L, x) for x in names]
        for p in ps:
            if not I.truth(has_column(t, p)):
                raise PyRaise("KeyError")
        t2 = t.but(dropped=t.dropped + tuple(p for p in ps if p not in t.dropped))
        if I.truth_cond(inplace) is TRUE:
            put(me, t2)
            return None
        return I.alloc(Inst(frame, dict(table=t2), "DataFrame"))

    def size(me):
        return rows_of(tab(me))

    def frame_init(me, data=None):
        if data is not None:
            raise Unsupported("DataFrame of data")
        I.store(me, Inst(I.deref(me).cls, dict(table=Table("table:none", ZERO, ZERO)), "DataFrame"))

    def iterrows(me):
        t = tab(me)
        if t.mask is not None:
            raise Unsupported("rows of rows")
        return SeqVal(t.n, lambda k: (num(k), row(t, num(k))))

    def row(t, k):
        return I.alloc(Inst(row_, dict(table=t, at=k, cols=None), "row"))

    frame.attrs.update({
        "__init__": Method(frame_init), "__getitem__": Method(get_item), "__setitem__": Method(set_item),
        "columns": PropertyVal(Method(columns), Method(set_columns)), "drop": Method(drop), "__len__": Method(size),
        "iterrows": Method(iterrows), "empty": P(lambda me: L.as_value(c_or(eqc(size(me), ZERO), eqc(tab(me).m, ZERO)))),
        "index": P(lambda me: L.ext["range"].fn(size(me))),
        "iloc": P(lambda me: I.alloc(Inst(ix_, dict(frame=me, label=False), "iloc"))),
        "loc": P(lambda me: I.alloc(Inst(ix_, dict(frame=me, label=True), "loc"))),
        "at": P(lambda me: I.alloc(Inst(ix_, dict(frame=me, label=True), "loc"))),
        "copy": Method(lambda me, deep=True: I.alloc(Inst(frame, dict(table=tab(me)), "DataFrame"))),
        "__iter__": Method(lambda me: L.iterate(columns(me))),
    })
    E["pandas.DataFrame"] = frame

    # ----------------------------------------------------------------- rows
    own = lambda me, a: I.deref(me).attrs[a]

    def ix_get(me, ix):
        t = tab(own(me, "frame"))
        col = None
        if isinstance(ix, tuple):
            ix = ix[1:] if ix and ix[0] == "tuple" else ix
            if len(ix) != 2 or not own(me, "label"):
                raise Unsupported("iloc")
            ix, col = ix
        if not L.is_scalar(I.deref(ix)):
            if own(me, "label") and isinstance(I.deref(ix), BoolArr):
                r = get_item(own(me, "frame"), ix)
                return r if col is None else get_item(r, col)
            raise Unsupported("iloc")
        k = L.scalar(ix)
        if not own(me, "label") and I.truth(lt(k, ZERO)):
            k = k + rows_of(t)
        if not I.truth(c_and(le(ZERO, k), lt(k, rows_of(t)))):
            raise PyRaise("KeyError" if own(me, "label") else "IndexError")
        if t.mask is not None:
            if own(me, "label"):
                raise Unsupported("labels of rows")
            k = elem(L.tensor_of(t.mask[0])[0], (k,))
        r = row(t.but(mask=None), k)
        return r if col is None else row_get(r, col)
    ix_.attrs["__getitem__"] = Method(ix_get)

    def row_get(me, ix):
        t, k, cols = own(me, "table"), own(me, "at"), own(me, "cols")
        o = I.deref(ix)
        if isinstance(o, (str, SymStr)):
            if cols is not None:
                raise Unsupported("column of some columns")
            return column(me, t, ix)(k)
        it = L.iterate(ix)
        if isinstance(it, tuple):
            for x in it:
                column(me, t, x)
        else:
            missing(t, it)
        return I.alloc(Inst(row_, dict(table=t, at=k, cols=it), "row"))

    def missing(t, it):
        """KeyError if one of the names is not a column"""
        m, cond, el, facts = graphs.domain(it)
        v = T.fresh_index()
        kp = atom_poly(v)
        c = c_not(has_column(t, text(L, el(kp))))
        if cond is not None:
            c = c_and(cond(kp), c)
        if I.truth(T.exists(v, m, c)):
            raise PyRaise("KeyError")

    def pairs(me):
        t, k, cols = own(me, "table"), own(me, "at"), own(me, "cols")
        if cols is None:
            cols = L.iterate(columns_of(t))
        if isinstance(cols, tuple):
            return tuple((x, cell(t, text(L, x), k)) for x in cols)
        f = lambda x: (x, cell(t, text(L, x), k))
        m, cond, el, facts = graphs.domain(cols)
        if cond is None:
            return SeqVal(m, lambda j: f(el(num(j))))
        return graphs.FilterSeq(m, cond, lambda j: f(el(num(j))), facts)

    def columns_of(t):
        return columns(I.alloc(Inst(frame, dict(table=t), "DataFrame")))

    def to_dict(me):
        ps = pairs(me)
        if isinstance(ps, tuple):
            if all(isinstance(x, str) for x, _ in ps):
                return I.alloc(DictObj(items=dict(ps)))
            from .lib import tuple_seq
            ps = tuple_seq(L, ps)
        return I.alloc(DictObj(base=("comp", ps)))
    row_.attrs.update({"__getitem__": Method(row_get), "to_dict": Method(to_dict), "items": Method(pairs), "get": Method(row_get)})


# ---------------------------------------------------------------- contracts
def same_pairs(vc, a, b):
    """two dictionaries with the same (text, value) pairs in the same order"""
    from .vc import Eq
    L, I = vc.I.lib, vc.I

    def seq(d):
        o = I.deref(d)
        if not isinstance(o, DictObj):
            raise Unsupported("record")
        if o.items is not None:
            return tuple(o.items.items())
        if not isinstance(o.base, tuple):
            raise Unsupported("record")
        return o.base[1]
    x, y = seq(a), seq(b)
    e = Eq(I)

    def same(p, q):
        return e(p[0], q[0]) is True and e(p[1], q[1]) is True
    if isinstance(x, tuple) and isinstance(y, tuple):
        return len(x) == len(y) and all(same(p, q) for p, q in zip(x, y))
    if isinstance(x, tuple) or isinstance(y, tuple):
        s, t = (x, y) if isinstance(x, tuple) else (y, x)
        return s == () and I.entails(eqc(t.n, ZERO))
    (m1, c1, e1, f1), (m2, c2, e2, f2) = graphs.domain(x), graphs.domain(y)
    if not e.scalar(m1, m2):
        vc.note(e)
        return False
    k = atom_poly(T.fresh_index())
    rng = [le(ZERO, k), lt(k, m1)]
    c1, c2 = (c1(k) if c1 else TRUE), (c2(k) if c2 else TRUE)
    if not (I.entails_under(rng + [c1], c2) and I.entails_under(rng + [c2], c1)):
        vc.note_text(f"columns {T.show(c1)}  vs  {T.show(c2)}")
        return False
    ok = e.for_all_paths(lambda: same(e1(k), e2(k)), rng + [c1])
    if not ok:
        vc.note(e)
    return ok
