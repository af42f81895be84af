# Snippets for engine_test.py.
#-- dot
return np.dot(M, A[:2])
#-- matmul
return M @ M @ A[1:]
#-- vecdot
return A @ A
#-- einsum1
return np.einsum("ij,j->i", M, A[:2])
#-- einsum2
return np.einsum("ij,jk->ik", M, M)
#-- einsum3
return np.einsum("i,i", A, A)
#-- stack
return np.stack([A, A * 2])
#-- stack1
return np.stack((A, A * 2), axis=1)
#-- hstack
return np.hstack((A, [a, b], c))
#-- vstack
return np.vstack((A, A + 1))
#-- column_stack
return np.column_stack((A, A + 1))
#-- block
return np.block([[M, M], [np.zeros((2, 2)), M]])
#-- outer
return np.outer(A, A)
#-- where
return np.where(A > a, A, b)
#-- where scalar
return np.where(a > 0, b, c)
#-- clip
return np.clip(A, -1, 1)
#-- clip method
return A.clip(-1.0, 1.0)
#-- clip arrays
return np.clip(A, np.array([-1, -2, -0.5]), np.array([1, 2, 0.5]))
#-- hypot
return np.hypot(a, b)
#-- arctan2
return np.arctan2(a, b)
#-- mod
return [a % 2.0, np.mod(a, 2.0), np.remainder(a, 2), np.fmod(a, 2), math.fmod(a, 2)]
#-- divmod
return divmod(a, 0.7)
#-- floordiv
return [a // 0.7, np.floor_divide(a, 0.7), np.floor(a), np.ceil(a), np.rint(a), np.trunc(a), round(a)]
#-- sign
return [np.sign(a), np.copysign(a, b), math.copysign(a, b)]
#-- square
return [np.square(a), np.power(a, 2), a ** 2, pow(a, 2), np.float_power(np.abs(a), 1.5)]
#-- cbrt
return np.sqrt(np.abs(A))
#-- cross
return np.cross(A, np.array([a, b, c]))
#-- inner
return np.inner(A, A)
#-- vdot
return np.vdot(A, A)
#-- tensordot
return np.tensordot(M, A[:2], axes=1)
#-- tensordot2
return np.tensordot(M, M, axes=([1], [0]))
#-- multi_dot
return np.linalg.multi_dot([M, M, M])
#-- eye
return np.eye(2) * a + np.identity(2)
#-- diag
return np.diag([a, b, c])
#-- diagonal
return np.diag(M)
#-- full
return np.full(3, a)
#-- full2
return np.full((2, 2), a)
#-- full_like
return np.full_like(A, a)
#-- zeros_like
r = np.zeros_like(A)
r[1] = a
return r
#-- ones_like
return np.ones_like(A) * b
#-- empty fill
r = np.empty(3)
r.fill(a)
return r
#-- empty_like
r = np.empty_like(A)
r[:] = A * 2
return r
#-- cumsum
return np.cumsum(A)
#-- cumprod
return A.cumprod()
#-- diffs
return np.diff(A)
#-- linspace
return np.linspace(0, a, 5)
#-- linspace2
x, h = np.linspace(0, 1, 5, retstep=True)
return [x * a, h]
#-- arange
return np.arange(5) * a
#-- arange2
return np.arange(1, 2, 0.25)
#-- isin
return np.isin(["x", "y"], ["y", "z"])
#-- array_equal
return np.array_equal(np.array([1, 2]), np.array([1, 2]))
#-- minimum.reduce
return np.minimum.reduce([a, b, c])
#-- maximum.reduce
return np.maximum.reduce(A)
#-- add.reduce
return np.add.reduce(A)
#-- logical
return [np.logical_and(a > 0, b > 0), np.logical_or(a > 0, b > 0), np.logical_not(a > 0), np.logical_xor(a > 0, b > 0)]
#-- logical reduce
return np.logical_or.reduce(A > 0)
#-- any all
return [np.any(A > 0), np.all(A > 0), (A > 0).any(), (A > 0).all()]
#-- builtin any all
return [any(x > 0 for x in A), all(x > 0 for x in A)]
#-- sum
return [np.sum(A), A.sum(), sum(A), np.sum(M, axis=0), M.sum(axis=1), np.prod(A)]
#-- mean
return [np.mean(A), A.mean(), np.average(A), np.average(A, weights=[1, 2, 3]), np.std(A), np.var(A), np.median(A)]
#-- min max
return [np.min(A), A.max(), min(A), max(A), min(a, b), max([a, b, c]), np.amin(A), np.amax(A), np.ptp(A)]
#-- min key
return min([a, b, c], key=abs)
#-- max key
return max((a, b), key=lambda v: -v)
#-- min default
return min([], default=a)
#-- argmax
return [np.argmax(A), A.argmin()]
#-- sort
return np.sort(A)
#-- sorted
return sorted([a, b, c])
#-- argsort concrete
return np.argsort([3, 1, 2])
#-- searchsorted concrete
return np.searchsorted([1, 2, 3], 2.5)
#-- concat
return np.concatenate((A, [a], np.array([b, c])))
#-- append
return np.append(A, a)
#-- insert
return np.insert(A, 1, a)
#-- delete
return np.delete(A, 1)
#-- roll
return np.roll(A, 1)
#-- roll neg
return np.roll(A, -1)
#-- flip
return [np.flip(A), A[::-1]]
#-- tile
return np.tile(A, 2)
#-- repeat
return np.repeat(A, 2)
#-- reshape
return np.concatenate((A, A)).reshape(2, 3).T
#-- reshape-1
return M.reshape(-1)
#-- ravel
return [M.ravel(), M.flatten()]
#-- transpose
return [M.T, np.transpose(M), M.transpose()]
#-- expand
return [A[None, :], A[:, np.newaxis], np.expand_dims(A, 0)]
#-- squeeze
return np.squeeze(np.array([[a, b]]))
#-- atleast
return [np.atleast_1d(a), np.atleast_2d(A)]
#-- split
x, y = np.split(np.array([a, b, c, d]), 2)
return [x, y]
#-- array_split
return [list(v) for v in np.array_split(np.array([a, b, c]), 2)]
#-- fancy index
return A[[2, 0]]
#-- fancy assign
r = np.zeros(4)
r[[0, 2]] = [a, b]
return r
#-- mask index
return np.array([a, b, c])[np.array([True, False, True])]
#-- mask assign
r = A.copy()
r[r < 0] = 0
return r
#-- mask assign vals
r = A.copy()
m = r > a
r[m] = r[m] * 2
return r
#-- mask aug
r = A.copy()
r[r < 0] *= -1
return r
#-- 2d index
return [M[0, 1], M[:, 0], M[1], M[..., 1], M[0][1]]
#-- slice assign
r = np.zeros((2, 3))
r[:, 1] = A[:2]
r[1, :2] += 5
return r
#-- inplace view
r = A.copy()
v = r[:2]
v += 1
return r
#-- inplace out
r = np.zeros(3)
np.add(A, 1, out=r)
return r
#-- multiply out
r = np.empty(3)
np.multiply(A, 2, out=r)
return r
#-- ufuncs
return [np.add(a, b), np.subtract(a, b), np.multiply(a, b), np.divide(a, np.exp(b)), np.true_divide(a, 2), np.negative(a), np.reciprocal(np.exp(a)), np.abs(a), np.absolute(a), np.fabs(a), abs(a)]
#-- trig
return [np.sin(a), np.cos(a), np.tan(a / 4), np.arcsin(np.sin(a)), np.arccos(np.cos(a)), np.arctan(a), np.sinh(a), np.cosh(a), np.tanh(a), np.exp(a), np.log(np.exp(a)), np.log10(np.exp(a)), np.log1p(np.abs(a)), np.expm1(a), np.sqrt(np.abs(a)), np.deg2rad(a), np.rad2deg(a), np.degrees(a), np.radians(a)]
#-- math
return [math.sin(a), math.cos(a), math.tan(a / 4), math.atan(a), math.atan2(a, b), math.hypot(a, b), math.sqrt(abs(a)), math.exp(a), math.log(abs(a) + 1), math.pow(abs(a), 1.5), math.floor(a), math.ceil(a), math.trunc(a), math.fabs(a), math.degrees(a), math.radians(a), math.isclose(a, a), math.pi, math.inf > a, math.tau]
#-- math dist
return [math.dist([a, b], [c, d]), math.fsum([a, b, c]), math.prod([a, b])]
#-- sinc
return np.heaviside(a, 0.5)
#-- interp
return np.interp(a, [-1, 0, 1], [2.0, 3.0, 5.0])
#-- polyval
return np.polyval([a, b, c], d)
#-- piecewise
return np.piecewise(a, [a < 0, a >= 0], [-1, 1])
#-- select
return np.select([a < -1, a > 1], [-1.0, 1.0], default=a)
#-- choose
return np.array([a, b, c])[1]
#-- linalg
return [np.linalg.norm(A), np.linalg.det(M)]
#-- inv
return np.linalg.inv(M + 10 * np.eye(2))
#-- solve
return np.linalg.solve(M + 10 * np.eye(2), A[:2])
#-- trace
return [np.trace(M), M.trace()]
#-- isfinite
return [np.isfinite(a), np.isnan(a), math.isnan(a), math.isinf(a), np.isinf(a)]
#-- nan_to_num
return np.nan_to_num(A)
#-- isclose
return [np.isclose(a, a), np.allclose(A, A)]
#-- nonzero concrete
return np.nonzero(np.array([0, 1, 0, 1]))[0]
#-- where1
return np.where(np.array([0, 1, 0, 1]))[0]
#-- flatnonzero
return np.flatnonzero([0, 1, 1])
#-- count_nonzero
return np.count_nonzero([0, 1, 1])
#-- unique
return np.unique([3, 1, 1])
#-- meshgrid
x, y = np.meshgrid([1, 2], [3, 4])
return [x * a, y]
#-- ndindex
return [i for i in np.ndindex(2, 2)]
#-- ndenumerate
return [[list(i), v] for i, v in np.ndenumerate(M)]
#-- nditer
return [M.shape, M.ndim, M.size, len(M), A.shape[0], M.tolist()]
#-- asarray
return [np.asarray([a, b], dtype=float), np.array([a], dtype=np.float64), np.asarray(A), np.asanyarray(A), np.ascontiguousarray(A)]
#-- astype
return A.astype(float)
#-- copy
r = np.copy(A)
r[0] = a
return [r, A]
#-- item
return [A[0].item(), A.item(1), float(A[1])]
#-- take
return [np.take(A, [2, 1]), A.take([0])]
#-- put
r = A.copy()
np.put(r, [0, 1], [a, b])
return r
#-- copyto
r = np.zeros(3)
np.copyto(r, A)
return r
#-- fromiter
return np.fromiter((x * 2 for x in A), dtype=float)
#-- apply_along
return np.apply_along_axis(lambda r: r.sum(), 1, M)
#-- vectorize
f = np.vectorize(lambda x: x * 2)
return f(A)
#-- c_ r_
return [np.r_[A, a, b], np.c_[A, A]]
#-- swapaxes
return np.swapaxes(M, 0, 1)
#-- moveaxis
return np.moveaxis(M, 0, 1)
#-- triu
return [np.triu(M), np.tril(M)]
#-- kron
return np.kron(M, np.eye(2))
#-- complex
z = a + 1j * b
return [z.real, z.imag, abs(z), np.abs(z), np.angle(z), np.real(z), np.imag(z), z.conjugate().imag, np.conj(z).imag]
#-- complex rot
z = (a + 1j * b) * np.exp(1j * c)
return [z.real, z.imag]
#-- complex class
z = complex(a, b) * complex(math.cos(c), math.sin(c))
return [z.real, z.imag]
#-- complex arr
z = np.array([a + 1j * b, c + 1j * d]) * 1j
return [z.real, z.imag]
#-- complex div
z = complex(a, b) / complex(3, c)
return [z.real, z.imag]
#-- walrus
if (n := a + b) > 0:
    return n
return -n
#-- match value
k = "x"
match k:
    case "y":
        return a
    case "x":
        return b
    case _:
        return c
#-- match tuple
match (a > 0, b > 0):
    case (True, True):
        return 1
    case (True, False):
        return 2
    case (False, _):
        return 3
#-- match guard
match a:
    case v if v > 0:
        return v
    case _:
        return 0
#-- match seq
match [a, b, c]:
    case [x, *rest]:
        return [x, rest]
#-- match class
@dataclass
class P:
    x: float
    y: float
match P(a, b):
    case P(x=u, y=v):
        return u - v
#-- match or
match 3:
    case 1 | 3:
        return a
    case _:
        return b
#-- match map
match {"k": a}:
    case {"k": v}:
        return v
#-- star unpack
x, *y = [a, b, c]
return [x, y]
#-- star call
def f(p, q, *r, k=1, **kw):
    return p - q + sum(r) * k + kw.get("z", 0)
return f(*[a, b], c, d, **dict(k=2, z=3))
#-- kwonly
def f(p, /, q, *, k):
    return p - q * k
return f(a, q=b, k=c)
#-- default mutable
def f(x, acc=[]):
    acc.append(x)
    return len(acc)
f(a)
return f(b)
#-- closure nonlocal
n = 0
def inc():
    nonlocal n
    n += a
    return n
inc()
return inc()
#-- generator
def g():
    for i in range(3):
        yield i * a
return list(g())
#-- generator state
def g():
    s = 0
    while True:
        s += a
        yield s
it = g()
next(it)
return next(it)
#-- generator send from
def h():
    yield a
    yield b
def g():
    yield from h()
    yield c
return list(g())
#-- genexp
return sum(x * y for x, y in zip(A, [a, b, c]))
#-- nested comp
return [x * y for x in (a, b) for y in (c, d)]
#-- comp cond
return [i * a for i in range(6) if i % 2]
#-- dict comp
return {k: v for k, v in zip("xyz", A)}
#-- set comp
return {i % 2 for i in range(5)}
#-- reduce
return reduce(operator.mul, [a, b, c])
#-- reduce init
return functools.reduce(lambda x, y: x @ y, [M, M], np.eye(2))
#-- operator
return [operator.add(a, b), operator.sub(a, b), operator.mul(a, b), operator.neg(a), operator.itemgetter(1)([a, b]), operator.lt(a, b), operator.truediv(a, 2), operator.pow(a, 2), operator.matmul(M, M), operator.abs(a)]
#-- attrgetter
@dataclass
class P:
    x: float = 1.0
return operator.attrgetter("x")(P(a))
#-- methodcaller
return operator.methodcaller("get", "k")({"k": a})
#-- partial
f = partial(lambda x, y, z: x - y * z, a, z=2)
return f(b)
#-- namedtuple
P = namedtuple("P", "x y")
p = P(a, y=b)
q = p._replace(x=c)
return [p.x, p[1], q.x, len(p), list(p), p._fields]
#-- namedtuple typing
from typing import NamedTuple
class P(NamedTuple):
    x: float
    y: float = 2.0
p = P(a)
u, v = p
return [p.x, p.y, u, v]
#-- dataclass
@dataclass
class P:
    x: float
    y: float = 2.0
    z: list = field(default_factory=list)
p = P(a)
p.z.append(b)
return [p.x, p.y, p.z, P(c).z]
#-- dataclass frozen
@dataclass(frozen=True)
class P:
    x: float
    def f(self):
        return self.x * 2
    def __post_init__(self):
        pass
return P(x=a).f()
#-- dataclass replace
import dataclasses
@dataclass
class P:
    x: float
    y: float
return [dataclasses.replace(P(a, b), x=c).x, dataclasses.asdict(P(a, b)), dataclasses.astuple(P(a, b))]
#-- ordereddict
o = OrderedDict()
o["p"] = a
o["q"] = b
return list(o.items())
#-- defaultdict
o = defaultdict(list)
o["p"].append(a)
return dict(o)
#-- deque
q = deque([0.0, 0.0], maxlen=2)
q.append(a)
q.append(b)
q.append(c)
return [q[0], q[-1], len(q), list(q)]
#-- deque2
q = deque()
q.append(a)
q.appendleft(b)
x = q.popleft()
q.extend([c, d])
q.rotate(1)
return [x, list(q)]
#-- counter
return dict(collections.Counter("aab"))
#-- chainmap
return collections.ChainMap({"x": a}, {"y": b})["y"]
#-- context manager
class C:
    def __init__(self): self.n = 0
    def __enter__(self):
        self.n += 1
        return self
    def __exit__(self, *e):
        self.n += 10
        return False
with C() as k:
    k.n *= 2
return k.n * a
#-- contextlib
@contextlib.contextmanager
def cm(x):
    yield x * 2
with cm(a) as v:
    return v
#-- suppress
with contextlib.suppress(KeyError):
    {}["x"]
return a
#-- try
try:
    v = {}["x"]
except KeyError:
    v = a
else:
    v = b
finally:
    w = c
return [v, w]
#-- try multi
try:
    raise ValueError("x")
except (KeyError, ValueError) as e:
    return str(e)
#-- try from
try:
    try:
        raise ValueError("x")
    except ValueError as e:
        raise TypeError("y") from e
except TypeError as e:
    return [str(e), str(e.__cause__)]
#-- try return finally
r = []
def f():
    try:
        return a
    finally:
        r.append(b)
return [f(), r]
#-- assert msg
assert True, "no"
return a
#-- fstring
n = 3
return f"{n:03d}_{'x'!r}_{2.5:.2f}"
#-- format
return ["{}_{}".format(1, "b"), "%s-%d" % ("x", 3), "{k}".format(k=2)]
#-- str methods
s = " Ab_c "
return [s.strip(), s.lower(), s.upper(), "a,b".split(","), "-".join(["a", "b"]), "abc".replace("b", "x"), "abc".startswith("a"), "abc".endswith("bc"), "abc".find("c"), "a_b".partition("_"), "abc"[1:], "ab" * 2, "b" in "abc", "abc".title(), "x".zfill(3), "abc".index("b"), "abc".count("a"), "aXb".casefold(), "prefix_x".removeprefix("prefix_"), "x_suf".removesuffix("_suf"), "a b".rsplit(" ", 1), "x".isdigit(), "x".isalpha(), "ab".capitalize()]
#-- zip strict
return [x * y for x, y in zip([a, b], [c, d], strict=True)]
#-- enumerate
return [i * x for i, x in enumerate(A, start=1)]
#-- reversed
return [list(reversed([a, b])), list(map(lambda x: x * 2, A)), list(filter(None, [0, 1, 2]))]
#-- map multi
return list(map(lambda x, y: x * y, A, [a, b, c]))
#-- map op
return list(map(operator.mul, A, A))
#-- itertools
return [list(itertools.chain([a], [b])), list(itertools.product([0, 1], repeat=2)), list(itertools.repeat(a, 2)), list(itertools.islice(itertools.count(), 3)), list(itertools.accumulate([a, b, c])), list(itertools.chain.from_iterable([[a], [b]])), list(itertools.zip_longest([1, 2], [3])), list(itertools.combinations([1, 2, 3], 2)), list(itertools.permutations([1, 2])), list(itertools.starmap(operator.mul, [(a, 2), (b, 3)])), list(itertools.pairwise([1, 2, 3])), list(itertools.compress([a, b], [0, 1])), list(itertools.takewhile(lambda x: x < 2, [1, 2, 3]))]
#-- cycle
it = itertools.cycle([a, b])
return [next(it), next(it), next(it)]
#-- ternary chain
return a if a > 0 else b if b > 0 else c
#-- chained cmp
return [0 < a < 1, -1 <= a <= b]
#-- bool ops
return [a > 0 and b > 0, a > 0 or b > 0, not a > 0, (a > 0) & (b > 0), (a > 0) | (b > 0), (a > 0) ^ (b > 0)]
#-- bool value
return a or b
#-- and value
return (a > 0) and b
#-- bool arith
return (a > 0) * b - (a < 0) * c
#-- int bool
return [int(a > 0), float(a > 0), bool(a), (a > 0) + (b > 0)]
#-- sign formula
return (a > 0) - (a < 0)
#-- index by bool
return [a, b][c > 0]
#-- dict by bool
return {True: a, False: b}[c > 0]
#-- dict lookup phi
k = "p" if a > 0 else "q"
return {"p": b, "q": c}[k]
#-- list index phi
k = 0 if a > 0 else 2
return A[k]
#-- early return
if a > 0:
    if b > 0:
        return c
    return d
return a
#-- loop break
s = 0
for x in A:
    if x > 1:
        break
    s += x
return s
#-- loop continue
s = 0
for x in A:
    if x > 1:
        continue
    s += x
return s
#-- loop else
for x in A:
    if x > 1:
        break
else:
    return -7
return x
#-- loop return
for x in A:
    if x > 1:
        return x
return a
#-- while concrete
i = 0
s = 0
while i < 3:
    s += A[i]
    i += 1
return s
#-- while break
i = 0
while True:
    if i == 2:
        break
    i += 1
return i * a
#-- while pop
l = [a, b, c]
r = 0
while l:
    r = r * 2 + l.pop()
return r
#-- next gen default
return next((x for x in A if x > 1), a)
#-- next names
return next(i for i, n in enumerate(["p", "q"]) if n == "q")
#-- list methods
l = [a, b]
l.append(c)
l.insert(0, d)
l.extend([1, 2])
l.reverse()
l.remove(1)
p = l.pop(0)
l2 = l.copy()
l2.clear()
return [l, p, l2, l.index(a) if False else 0, [3, 1, 2].index(1), [1, 1].count(1), l[-1], l + [5], l * 2]
#-- list sort
l = [3, 1, 2]
l.sort(reverse=True)
l2 = sorted(["b", "a"], key=lambda s: s)
return [l, l2]
#-- list del
l = [a, b, c, d]
del l[0]
l[0:2] = [1]
return l
#-- dict methods
e = {"x": a}
e.update(y=b)
e.update({"z": c})
e.setdefault("w", d)
f = e.copy()
p = f.pop("x")
q = f.pop("nope", None)
return [e, list(e), list(e.keys()), list(e.values()), p, q, "x" in f, e.get("y"), e.get("n", 5), len(f), {**e, "x": 1}, e | {"x": 2}, dict(e, k=3)]
#-- dict fromkeys
return dict.fromkeys(["a", "b"], 0)
#-- dict popitem
e = {"x": 1, "y": 2}
return e.popitem()
#-- dict iter
s = 0
for k, v in {"x": a, "y": b}.items():
    s += v * len(k)
return s
#-- dict tuple key
t = {(True, False): a, (True, True): b, (False, False): c, (False, True): d}
return t[(a > 0, b > 0)]
#-- sets
return [sorted({1, 2} | {3}), sorted({1, 2} & {2}), sorted({1, 2} - {1}), {1} <= {1, 2}, sorted(set("aab")), {1}.issubset({1}), frozenset([1]) == {1}, sorted({1, 2} ^ {2, 3}), set([1]).isdisjoint([2])]
#-- set methods
s = set()
s.add(1)
s.update([2, 3])
s.discard(2)
return sorted(s)
#-- tuple
t = (a, b) + (c,)
return [t, t.index(a) if False else 0, t[1:], (1, 1).count(1)]
#-- slices
s = slice(0, 2)
return [A[s], A[-2:], A[::2], [a, b, c][slice(None, None, -1)]]
#-- cmp obj
return [(1, 2) < (1, 3), [1] == [1], "a" < "b", None is None, (1, "a") == (1, "a")]
#-- isinstance
return [isinstance(1, int), isinstance(1.0, (int, float)), isinstance("s", str), isinstance([], list), isinstance(A, np.ndarray), isinstance(a, (int, float)), issubclass(bool, int), isinstance({}, dict), callable(len), hasattr(A, "shape"), isinstance(True, bool), isinstance(np.float64(1), float), isinstance((), tuple)]
#-- type
return [type(1) is int, type([]) == list, type("s").__name__]
#-- class features
class B:
    k = 2
    def __init__(self, x): self._x = x
    @property
    def x(self): return self._x
    @x.setter
    def x(self, v): self._x = v * self.k
    @staticmethod
    def s(v): return v + 1
    @classmethod
    def c(cls, v): return cls(v)
    def __call__(self, v): return v * self._x
    def __getitem__(self, i): return self._x * i
    def __len__(self): return 4
    def __add__(self, o): return B(self._x + o._x)
    def __eq__(self, o): return True
    def __iter__(self): return iter([self._x, 1])
    def __contains__(self, v): return v == 1
    def __neg__(self): return B(-self._x)
    def __bool__(self): return True
    def __repr__(self): return "B"
    def __mul__(self, o): return B(self._x * o)
    def __rmul__(self, o): return B(self._x * o)
    def __radd__(self, o): return B(self._x + o)
class D(B):
    k = 3
    def __init__(self, x):
        super().__init__(x)
        self.y = 1
    def __getattr__(self, n):
        if n == "dyn": return 9
        raise AttributeError(n)
o = D(a)
o.x = b
return [o.x, o.s(1), D.c(c).x, o(2), o[3], len(o), (o + B(1)).x, o == 5, list(o), 1 in o, (-o).x, bool(o), o.dyn, getattr(o, "nope", 5), D.k, str(o), (2 * o).x, (1 + o).x, isinstance(o, B), D.__name__, type(o).__name__, D.__mro__[1].__name__]
#-- setattr loop
class B: pass
o = B()
for n, v in zip("xyz", A):
    setattr(o, n, v)
return [o.x, getattr(o, "z"), vars(o)["y"], sorted(o.__dict__)]
#-- slots
class B:
    __slots__ = ("x",)
    def __init__(self, x): self.x = x
return B(a).x
#-- cached property
class B:
    def __init__(self, x): self.n = 0; self._x = x
    @functools.cached_property
    def v(self):
        self.n += 1
        return self._x * 2
o = B(a)
return [o.v, o.v, o.n]
#-- lru cache
@functools.lru_cache(maxsize=None)
def f(n):
    return n * 2
return f(3) * a
#-- wraps decorator
def deco(f):
    @functools.wraps(f)
    def g(*p, **k):
        return f(*p, **k) * 2
    return g
@deco
def h(x): return x + 1
return [h(a), h.__name__]
#-- decorator class method
def twice(f):
    def g(self, x):
        return f(self, x) * 2
    return g
class B:
    @twice
    def m(self, x): return x
return B().m(a)
#-- enum
class E(Enum):
    P = 1
    Q = 2
return [E.P.value, E["Q"].name, E(2) is E.Q, E.P == E.P, [e.name for e in E]]
#-- intenum
from enum import IntEnum
class E(IntEnum):
    P = 0
    Q = 1
return [A[E.Q], E.Q + 1]
#-- abc
class B(ABC):
    @abstractmethod
    def f(self): ...
class D(B):
    def f(self): return a
return D().f()
#-- mixin super
class X:
    def f(self): return [1]
class Y(X):
    def f(self): return super().f() + [2]
class Z(X):
    def f(self): return super().f() + [3]
class W(Y, Z):
    def f(self): return super(W, self).f() + [4]
return W().f()
#-- init_subclass
class B:
    reg = []
    def __init_subclass__(cls, **k):
        B.reg.append(cls.__name__)
class D(B): pass
return B.reg
#-- descriptor
class Desc:
    def __set_name__(self, o, n): self.n = "_" + n
    def __get__(self, o, t=None): return getattr(o, self.n)
    def __set__(self, o, v): setattr(o, self.n, v * 2)
class B:
    x = Desc()
o = B()
o.x = a
return o.x
#-- property func
class B:
    def g(self): return self._x
    def s(self, v): self._x = v
    x = property(g, s)
o = B()
o.x = a
return o.x
#-- lambda default
fs = [lambda x, i=i: x * i for i in range(3)]
return [f(a) for f in fs]
#-- lambda closure
fs = [lambda x: x * i for i in range(3)]
return [f(a) for f in fs]
#-- dispatch dict
ops = {"sum": lambda x: x + 1, "neg": operator.neg}
return [ops["sum"](a), ops["neg"](b)]
#-- singledispatch
@functools.singledispatch
def f(x): return 0
@f.register(list)
def _(x): return 1
return [f([]), f("")]
#-- copy
x = [[a], b]
y = copy.deepcopy(x)
z = copy.copy(x)
y[0][0] = 1
z[0][0] = 2
return [x, y, z]
#-- globals
return [len("abc"), abs(-2), round(2.567, 2), pow(2, 3), divmod(7, 2), hash("a") == hash("a"), id(a) == id(a), ord("a"), chr(97), bin(3), int("3"), float("2.5"), list(range(5, 0, -2)), tuple("ab"), sum([[1], [2]], []), str(3), repr("x"), bool([]), iter([1]).__next__()]
#-- bit ops
return [5 & 3, 5 | 3, 5 ^ 3, ~5, 1 << 3, 8 >> 2, 0xFF, 7 // 2, -7 // 2, 7 % 3, -7 % 3]
#-- aug ops
x = a
x += b
x -= c
x *= 2
x /= 4
x **= 2
return x
#-- aug list alias
l = [1]
m = l
m += [2]
return l
#-- aug array alias
r = A.copy()
q = r
q *= 2
return r
#-- rebind array
r = A.copy()
q = r
q = q * 2
return r
#-- multiple assign
x = y = a
(p, q), r = (b, c), d
x, y = y + 1, x + 2
return [x, y, p, q, r]
#-- swap
l = [a, b]
l[0], l[1] = l[1], l[0]
return l
#-- global const
T = 1e-4
return T * a
#-- np constants
return [np.pi, np.e, np.inf > a, -np.inf < a, np.newaxis is None, np.finfo(float).eps]
#-- np types
return [np.float32(0.5), np.int64(3), np.float64(2.5), np.bool_(True), np.uint8(4)]
#-- broadcasting
return [M * A[:2], M + a, A * A[:, None], M / np.array([[1.0], [2.0]])]
#-- comparison arr
return [(A > 0).tolist(), (A[:2] >= M).tolist(), np.greater(a, b), np.less_equal(a, b), np.equal(1, 1), np.not_equal(1, 2), np.less(a, b), np.greater_equal(a, b)]
#-- sum bool
return np.sum(A > 0)
#-- dot sequence
t = 2 / 3 * np.array([[1, -0.5, -0.5], [0, 0.5 * np.sqrt(3), -0.5 * np.sqrt(3)]])
return t.dot(A)
#-- matvec list
return [sum(m * v for m, v in zip(row, A[:2])) for row in M]
#-- rotate
cs, sn = np.cos(a), np.sin(a)
return np.array([[cs, -sn], [sn, cs]]).T @ A[:2]
#-- nested func rec
def f(n):
    return 1 if n == 0 else a * f(n - 1)
return f(4)
#-- string concat keys
return {"u_" + k: v for k, v in zip(["a", "b"], [a, b])}
#-- sum start
return sum([A, A], np.zeros(3))
#-- where in loop
r = []
for x in A:
    r.append(x if abs(x) <= 1 else np.sign(x))
return r
#-- median of three
return sorted([-1, a, 1])[1]
#-- max min clip
return max(-1, min(1, a))
#-- np max min
return np.maximum(-1, np.minimum(A, 1))
#-- np.sum gen list
return np.sum([x ** 2 for x in A])
#-- np.abs sum power
return np.sum(np.abs(A) ** np.array([1, 2, 0.5]))
#-- power arr
return np.power(np.abs(A), [1, 2, 3])
#-- nan handling
return np.where(np.isnan(A), 0, A)
#-- divide where
return np.divide(A, 2.0, out=np.zeros(3), where=np.array([True, False, True]))
#-- array of tuples
return np.array([(a, b), (c, d)])[:, 1]
#-- array from range
return np.array(range(3)) * a
#-- list mult array
return np.array([a] * 3)
#-- array concat list
return np.array(list(A) + [b])
#-- array iteration unpack
x, y, z = A
return x - y + z
#-- star array
return [*A, *[a, b]]
#-- 3d arrays
r = np.zeros((2, 2, 2))
r[0] = M
r[1, 0] = A[:2]
return r
#-- 3d matmul
r = np.array([M, M])
return r @ A[:2]
#-- np.zeros tuple shape
return np.zeros((1, 2)).shape
#-- np.array ndmin
return np.array([a, b], ndmin=2)
#-- dtype attr
return [A.dtype == float, np.zeros(3, dtype=int)[0], np.array([1, 2]).dtype.kind]
#-- dataclass method chain
class V:
    def __init__(self, x): self.x = x
    def add(self, y):
        self.x += y
        return self
return V(a).add(b).add(c).x
#-- property on base via super
class X:
    @property
    def v(self): return a
class Y(X):
    @property
    def v(self): return super().v * 2
return Y().v
#-- class attr array
class X:
    t = np.array([[1.0, 2.0], [3.0, 4.0]])
    def f(self, v): return np.matmul(self.t, v)
return X().f(A[:2])
#-- iterator class
class It:
    def __init__(self): self.n = 0
    def __iter__(self): return self
    def __next__(self):
        self.n += 1
        if self.n > 3: raise StopIteration
        return self.n * a
return list(It())
#-- warnings
with warnings.catch_warnings():
    warnings.simplefilter("ignore")
    warnings.warn("x")
return a
#-- errstate
with np.errstate(divide="ignore"):
    return a / 2
#-- conditional import
try:
    import nonexistent_mod
except ImportError:
    nonexistent_mod = None
return nonexistent_mod is None
#-- local import
from math import sin as s
return s(a)
#-- type checking
from typing import TYPE_CHECKING
if TYPE_CHECKING:
    import foo
return a
#-- annotated
x: float = a
y: "Optional[int]"
return x
#-- ellipsis pass
...
return a
#-- del var
x = a
del x
return b
#-- global func attr
def f(): return 1
f.k = a
return f.k
#-- star expr index
t = {(1, 2): a}
k = (1, 2)
return t[k]
#-- multi-cond branches
if a > 1:
    x = 1
elif a > 0:
    x = 2
elif a > -1:
    x = 3
else:
    x = 4
return x
#-- state in branches
o = {"n": 0}
if a > 0:
    o["n"] = 1
    o["m"] = b
return [o["n"], o.get("m", 7)]
#-- obj in branches
class V: pass
o = V()
o.x = 0
if a > 0:
    o.x = b
else:
    o.y = c
return [o.x, getattr(o, "y", 5)]
#-- list in branches
l = [0]
if a > 0:
    l[0] = b
l.append(c)
return l
#-- append in branches
l = []
for x in A:
    if x > 0:
        l.append(x)
return len(l)
#-- filter sum
return sum([x for x in A if x > 0])
#-- raise in branch
try:
    if a > 0:
        raise ValueError
    r = 1
except ValueError:
    r = 2
return r
#-- arr in branches
r = np.zeros(2)
if a > 0:
    r[0] = b
else:
    r[1] = c
return r
#-- func choice phi
f = math.sin if a > 0 else math.cos
return f(b)
#-- obj choice phi
class V:
    def __init__(self, x): self.x = x
    def f(self): return self.x
o = V(b) if a > 0 else V(c)
return o.f()
#-- obj choice phi write
class V:
    def __init__(self, x): self.x = x
p, q = V(b), V(c)
o = p if a > 0 else q
o.x = 9
return [p.x, q.x]
#-- tuple phi
x, y = (a, b) if a > 0 else (c, d)
return x - y
#-- None phi
x = None
if a > 0:
    x = b
return 0 if x is None else x
#-- list phi len
l = [1] if a > 0 else [1, 2]
return len(l)
#-- int counter phi
k = 0
if a > 0:
    k += 1
if b > 0:
    k += 1
return A[k]
#-- range phi
k = 1 if a > 0 else 2
s = 0
for i in range(k):
    s += b
return s
#-- slice phi
k = 1 if a > 0 else 2
return np.sum(A[:k])
#-- str phi
n = "x" if a > 0 else "y"
return n + "_1"
#-- and or short circuit
r = []
def f(): r.append(1); return True
a > 0 and f()
return len(r)
#-- bool(any)
return bool(np.any(np.abs(A) > 1)) or a > 2
#-- float(np)
return float(np.clip(a, -1, 1))
#-- complex branch merges
x = a
for k in range(3):
    if x > 1:
        x -= 1
    elif x < -1:
        x += 1
return x
#-- while symbolic bounded
x = a
n = 0
while x > 1 and n < 4:
    x -= 1
    n += 1
return [x, n]
#-- while symbolic wrap
x = a
while x > np.pi:
    x -= 2 * np.pi
while x < -np.pi:
    x += 2 * np.pi
return x
#-- wrap mod
return (a + np.pi) % (2 * np.pi) - np.pi
#-- unwrap arctan
return np.arctan2(np.sin(a), np.cos(a))
#-- exact trig identity
return np.sin(a) ** 2 + np.cos(a) ** 2
