"""Small functions over the language and library features the repository uses
(and may come to use).  `@over(...)` gives the values every argument ranges over;
run.py compares what the engine proves with what CPython computes."""
import copy
import itertools
import math
from collections import UserDict, deque
from functools import reduce
from itertools import islice, permutations, product

SAMPLES = []
INTS = (-2, -1, 0, 1, 2, 3)
SMALL = (0, 1, 2)
BOOLS = (False, True)
LISTS = ([], [1], [2, 1], [0, 3, 2], [1, 1, 2], [-1, 2, 0, 2])
DICTS = ({}, {"a": 1}, {"b": 2, "a": 1}, {"a": 0, "b": -1, "c": 2})
WORDS = ("a", "b", "c", "")


class Given(tuple):
    """values handed in by the user: the engine knows nothing of them"""


ANY = Given((None, True, 0, 2, 1.5, "a", "", [], [1, "a"], (1, 2), {}, {"a": 1}, {"a": {"w": 2}, "b": None}))
GDICTS = Given(({}, {"a": 1}, {"b": 2, "a": 1}, {"a": 0, "b": "x", "c": None}))
GLISTS = Given(([], ["a"], ["b", 1], ("a", "b", None), ()))


def over(**kw):
    def f(fn):
        SAMPLES.append((fn, kw))
        return fn
    return f


# ------------------------------------------------------------------ numbers


@over(x=INTS, y=INTS)
def arith(x, y):
    return x + y * 2 - (x - y) * x


@over(x=INTS, y=INTS)
def floor_div(x, y):
    return x // y


@over(x=INTS, y=INTS)
def modulo(x, y):
    return x % y


@over(x=INTS, y=INTS)
def true_div(x, y):
    return x / y


@over(x=INTS)
def neg_abs(x):
    return -x, abs(x), +x


@over(x=INTS, y=INTS)
def chains(x, y):
    return 0 <= x < y, x != y, not x == y, x < y <= 2


@over(x=INTS, y=INTS)
def bool_ops(x, y):
    return (x and y), (x or y), (not x), (x and y or 5)


@over(x=INTS, y=INTS)
def min_max(x, y):
    return min(x, y), max(x, y, 1), min([x, y]), max((x, 0))


@over(x=INTS)
def bool_is_int(x):
    return True + x, (x == 1) == True, (x > 0) * 3  # noqa


@over(x=INTS)
def rounding(x):
    return int(x / 2), round(x / 2, 0) == x, math.floor(x / 2), math.ceil(x / 2)


@over(x=INTS)
def float_compare(x):
    return x / 2 < 1, float(x) == x, x / 2 == 0.5, x > -float("inf"), x < float("inf")


@over(x=INTS)
def ternary(x):
    return "pos" if x > 0 else "neg" if x < 0 else None


@over(x=INTS)
def walrus(x):
    if (y := x + 1) > 1:
        return y
    return -y


@over(x=INTS)
def int_types(x):
    return isinstance(x, int), isinstance(x, bool), isinstance(x, (str, int)), type(x) is int, type(x) == int  # noqa


@over(x=BOOLS)
def bool_types(x):
    return isinstance(x, int), isinstance(x, bool), type(x) is int, x is True, x == 1


# ------------------------------------------------------------------ equality, order


@over(x=SMALL, y=SMALL)
def tuples_equal(x, y):
    return (x, y) == (y, x), (x, y) < (y, x), (x, y) != (1, 1), (x,) == (x, y), (x, y) <= (x, 1)


@over(x=SMALL)
def kinds_differ(x):
    return [x] == (x,), (x,) == [x], "1" == x, None == x, [x] == [x], {"a": x} == {"a": 1}  # noqa


@over(l=LISTS)
def list_vs(l):  # noqa
    return l == [2, 1], l == [], [0, 3, 2] == l, l != [1]


@over(d=DICTS)
def dict_vs(d):
    return d == {}, d == {"a": 1, "b": 2}, d != {"a": 1}


@over(x=INTS)
def none_tests(x):
    y = None if x > 0 else x
    return y is None, y is not None, y == 0


@over(x=INTS)
def mixed_in(x):
    return x in (1, 2), x not in [0], x in (None, -1), x in {1: 2}, x in {2, 3}


# ------------------------------------------------------------------ control flow


@over(x=INTS, y=SMALL)
def early_return(x, y):
    if x > 1:
        return 1
    elif x < 0:
        if y:
            return -1
    else:
        y += 5
    return y


@over(x=SMALL)
def while_loop(x):
    n = 0
    while x < 3:
        x += 1
        n += x
    return n, x


@over(x=INTS)
def for_else(x):
    for i in (0, 1, 2):
        if i == x:
            r = "found"
            break
    else:
        r = "none"
    return r, i


@over(x=SMALL)
def nested_breaks(x):
    out = []
    for i in range(3):
        if i == x:
            continue
        for j in range(3):
            if j > i:
                break
            out.append((i, j))
    return out


@over(x=INTS)
def try_except(x):
    try:
        y = 6 // x
    except ZeroDivisionError:
        y = 100
    else:
        y += 1
    finally:
        z = 3
    return y, z


@over(x=INTS)
def raises(x):
    if x < 0:
        raise ValueError("negative")
    if x == 1:
        raise KeyError(x)
    return x


@over(x=INTS)
def catch_parent(x):
    try:
        if x == 0:
            raise KeyError("k")
        if x == 1:
            raise IndexError("i")
        if x == 2:
            raise TypeError("t")
        return "none"
    except LookupError:
        return "lookup"
    except (TypeError, ValueError) as e:
        return "type " + str(e)


@over(x=INTS)
def finally_return(x):
    log = []
    try:
        log.append(1)
        if x > 0:
            return log
        log.append(2)
    finally:
        log.append(3)
    return log


@over(x=SMALL)
def asserts(x):
    assert x != 1, "not one"
    return x


@over(x=SMALL)
def reraise(x):
    try:
        return [10, 20][x]
    except IndexError as e:
        raise ValueError("out") from e


# ------------------------------------------------------------------ lists


@over(l=LISTS)
def list_len_sum(l):  # noqa
    return len(l), sum(l), sum(l, 10), bool(l)


@over(l=LISTS)
def list_index(l):  # noqa
    return l[0], l[-1], l[len(l) - 1]


@over(l=LISTS, x=(-3, -1, 0, 1, 2, 4))
def list_at(l, x):  # noqa
    return l[x]


@over(l=LISTS)
def slices(l):  # noqa
    return l[1:], l[:1], l[:-1], l[:], l[1:2]


@over(l=LISTS, x=SMALL)
def slice_at(l, x):  # noqa
    return l[x:], l[:x], l[x:x + 1]


@over(l=LISTS)
def comprehension(l):  # noqa
    return [x + 1 for x in l], [x for x in l if x > 0], [(i, x) for i, x in enumerate(l)]


@over(l=LISTS)
def aggregate(l):  # noqa
    return sum(x * x for x in l), all(x > 0 for x in l), any(x > 1 for x in l), sum(1 for x in l if x)


@over(l=LISTS)
def list_extrema(l):  # noqa
    return max(l), min(l)


@over(l=LISTS)
def extrema_default(l):  # noqa
    return max(l, default=None), min(l, default=7)


@over(l=LISTS)
def accumulate(l):  # noqa
    s, m = 0, 0
    for x in l:
        s += x
        if x > m:
            m = x
    return s, m


@over(l=LISTS)
def append_loop(l):  # noqa
    out = []
    for x in l:
        out.append(x * 2)
    return out


@over(l=LISTS)
def mutate(l):  # noqa
    l = list(l)
    l.append(9)
    l[0] = 5
    l += [7]
    return l


@over(l=LISTS)
def insert_pop(l):  # noqa
    l = list(l)
    l.insert(0, 4)
    y = l.pop()
    l.insert(1, y)
    return l, y


@over(l=LISTS)
def pop_empty(l):  # noqa
    l = list(l)
    a = l.pop()
    b = l.pop(0)
    return a, b, l


@over(l=LISTS)
def list_copies(l):  # noqa
    a, b, c = list(l), l[:], l.copy()
    a.append(1)
    return len(a), b == l, c == l, a == l


@over(l=LISTS)
def aliasing(l):  # noqa
    a = list(l)
    b = a
    b.append(3)
    return a is b, len(a)


@over(l=LISTS)
def reverse(l):  # noqa
    return list(reversed(l)), l[::-1]


@over(l=LISTS)
def sort_list(l):  # noqa
    return sorted(l), sorted(l, reverse=True)


@over(l=LISTS)
def sort_key(l):  # noqa
    m = list(l)
    m.sort(key=lambda x: -x)
    return m


@over(l=LISTS, x=SMALL)
def membership(l, x):  # noqa
    return x in l, x not in l


@over(l=LISTS, x=SMALL)
def count_index(l, x):  # noqa
    return l.count(x), l.index(x)


@over(l=LISTS, x=SMALL)
def remove_value(l, x):  # noqa
    m = list(l)
    m.remove(x)
    return m


@over(x=SMALL, y=SMALL)
def repeat(x, y):
    return [x] * y, [0] * 3, (x, y) * 2


@over(x=SMALL, y=SMALL)
def nested_rows(x, y):
    g = [[0] * 3 for _ in range(3)]
    g[x][y] = 1
    return g


@over(x=SMALL, y=SMALL)
def shared_rows(x, y):
    g = [[0] * 3] * 3
    g[x][y] = 1
    return g


@over(x=SMALL, y=SMALL)
def slice_assign(x, y):
    r = [0, 0, 0, 0]
    r[x:x + 2] = [1, 1]
    return r, r[y]


@over(l=LISTS)
def zip_lists(l):  # noqa
    return [a + b for a, b in zip(l, l[1:])], list(zip(l, "ab"))


@over(l=LISTS)
def unpack(l):  # noqa
    a, b = l
    return b, a


@over(l=LISTS)
def star_unpack(l):  # noqa
    a, *rest = l
    return a, rest


@over(x=INTS, y=INTS)
def swap(x, y):
    x, y = y, x
    a = b = x
    return x, y, a, b


@over(l=LISTS)
def star_args(l):  # noqa
    def f(*a, k=1):
        return len(a) + k
    return f(*l), f(*l, k=3), [*l, 1], (0, *l)


@over(x=INTS)
def kwargs(x):
    def f(a, b=2, *, c=3, **kw):
        return a, b, c, len(kw), kw.get("d")
    return f(x), f(1, x), f(x, c=x), f(b=x, a=1), f(1, **{"d": x})


@over(l=LISTS)
def for_enumerate(l):  # noqa
    best, where = -10, None
    for i, x in enumerate(l):
        if x > best:
            best, where = x, i
    return best, where


@over(l=LISTS)
def find_first(l):  # noqa
    for i in range(len(l)):
        if l[i] == 2:
            return i
    return -1


@over(l=LISTS)
def next_gen(l):  # noqa
    return next((x for x in l if x > 0), None)


@over(l=LISTS)
def range_forms(l):  # noqa
    return list(range(len(l))), list(range(1, len(l))), len(range(2, len(l))), list(range(3, 0, -1))


@over(l=LISTS)
def map_filter(l):  # noqa
    return list(map(lambda x: x + 1, l)), list(filter(lambda x: x > 0, l))


@over(l=LISTS)
def reduce_sum(l):  # noqa
    return reduce(lambda a, x: a + x, l, 0)


@over(l=LISTS)
def concat(l):  # noqa
    return l + [1], [1] + l, l + l


@over(l=LISTS)
def deque_use(l):  # noqa
    d = deque(l)
    d.append(5)
    d.appendleft(6)
    return d.popleft(), d.pop(), len(d)


@over(l=LISTS)
def del_index(l):  # noqa
    m = list(l)
    del m[0]
    return m


@over(l=LISTS)
def tuple_of(l):  # noqa
    t = tuple(l)
    return t == tuple(l), len(t), t == l


@over(l=LISTS)
def set_of(l):  # noqa
    s = set(l)
    return len(s), 1 in s, s == {1, 2}


@over(x=SMALL)
def set_ops(x):
    s = {x, 1}
    s.add(2)
    return len(s), x in s, len(s - {1}), len(s | {5}), len(s & {2})


# ------------------------------------------------------------------ dictionaries


@over(d=DICTS)
def dict_len(d):
    return len(d), bool(d), list(d), sum(d.values())


@over(d=DICTS, k=WORDS)
def dict_get(d, k):
    return d.get(k), d.get(k, 5), k in d


@over(d=DICTS, k=WORDS)
def dict_index(d, k):
    return d[k]


@over(d=DICTS, k=WORDS, x=SMALL)
def dict_set(d, k, x):
    e = dict(d)
    e[k] = x
    return len(e), e[k], list(e)


@over(d=DICTS, k=WORDS)
def dict_del(d, k):
    e = dict(d)
    del e[k]
    return len(e), list(e)


@over(d=DICTS, k=WORDS)
def dict_pop(d, k):
    e = dict(d)
    return e.pop(k, None), len(e), e.get("a")


@over(d=DICTS)
def dict_comp(d):
    return {k: v + 1 for k, v in d.items()}


@over(d=DICTS)
def dict_comp_if(d):
    return {k: v for k, v in d.items() if v > 0}


@over(d=DICTS)
def dict_loop(d):
    s, names = 0, []
    for k, v in d.items():
        s += v
        names.append(k)
    return s, names


@over(d=DICTS)
def dict_build(d):
    e = {}
    for k in d:
        e[k] = d[k] * 2
    return e


@over(d=DICTS)
def dict_update(d):
    e = {"a": 7, "z": 1}
    e.update(d)
    return e["a"], e["z"], len(e)


@over(d=DICTS)
def dict_merge(d):
    e = {**d, "a": 7}
    return e["a"], len(e)


@over(d=DICTS, k=WORDS)
def setdefault(d, k):
    e = dict(d)
    r = e.setdefault(k, 9)
    return r, len(e)


@over(d=DICTS)
def dict_max(d):
    return max(d, key=lambda k: d[k])


@over(d=DICTS)
def dict_sorted(d):
    return sorted(d, key=lambda k: d[k]), sorted(d.items(), key=lambda kv: kv[1], reverse=True)


@over(d=DICTS)
def dict_views(d):
    return list(d.keys()), list(d.values()), list(d.items())


@over(d=DICTS)
def dict_from_pairs(d):
    return dict(d.items()) == d, dict(zip(d, d.values())) == d


@over(d=DICTS)
def nested_dict(d):
    e = {k: {"v": v, "w": [v]} for k, v in d.items()}
    for k in e:
        e[k]["v"] += 1
    return [x["v"] for x in e.values()], [x["w"][0] for x in e.values()]


@over(d=DICTS)
def deep_copy(d):
    e = {k: [v] for k, v in d.items()}
    f = copy.deepcopy(e)
    for k in f:
        f[k][0] = 9
    return [x[0] for x in e.values()], [x[0] for x in f.values()]


@over(d=DICTS)
def first_key(d):
    return next(iter(d)), list(d)[0]


@over(d=DICTS)
def unpack_items(d):
    (k, v), = d.items()
    return k, v


@over(d=DICTS)
def count_if(d):
    return len([k for k in d if d[k] > 0]), sum(d[k] for k in d), any(v < 0 for v in d.values())


@over(d=DICTS)
def dict_while_changed(d):
    e = dict(d)
    for k in list(e):
        if e[k] <= 0:
            del e[k]
    return len(e), list(e)


@over(k=WORDS)
def unhashable(k):
    return {[1]: k}


# ------------------------------------------------------------------ text


@over(k=WORDS)
def text_equal(k):
    return k == "a", k in ("a", "b"), k != "", bool(k)


@over(x=SMALL)
def format_text(x):
    return f"item_{x}", "n=" + str(x), f"{x}-{x}" == "1-1"


@over(k=WORDS)
def text_parts(k):
    return k + "b", k == "a" + "", len(k)


@over(x=SMALL)
def format_distinct(x):
    return f"i-{x}" == f"i-{x + 1}", f"i-{x}" == f"i-{x}"


@over(k=WORDS)
def text_methods(k):
    return k.upper() == "A", k.startswith("a"), ",".join([k, "x"])


@over(x=SMALL)
def text_index(x):
    return "abc"[x], ("A", "B", "C")[x]


# ------------------------------------------------------------------ functions and classes


class Box:
    kind = "box"

    def __init__(self, w, l=1):  # noqa
        self._w = w
        self.l = l

    @property
    def w(self):
        return self._w

    @w.setter
    def w(self, v):
        if v < 0:
            raise ValueError("negative")
        self._w = v

    def area(self):
        return self._w * self.l

    @classmethod
    def square(cls, w):
        return cls(w, w)

    @staticmethod
    def twice(x):
        return 2 * x

    def __len__(self):
        return 3

    def __getitem__(self, k):
        return self._w + k


class Crate(Box):
    kind = "crate"

    def __init__(self, w):
        super().__init__(w, 2)
        self.extra = self.kind

    def area(self):
        return super().area() + 1


@over(x=INTS)
def instances(x):
    a, c = Box(x), Crate(x)
    a.w = x + 1
    return a.area(), c.area(), a.kind, c.extra, len(a), a[2], isinstance(c, Box), Box.square(3).area(), Box.twice(x)


@over(x=INTS)
def setter_raises(x):
    a = Box(1)
    try:
        a.w = x
    except ValueError:
        return "refused", a.w
    return a.w, None


@over(x=INTS)
def attributes(x):
    a = Box(x)
    setattr(a, "z", 4)
    r = getattr(a, "y", 7), hasattr(a, "z"), hasattr(a, "q"), a.z
    del a.z
    return r, hasattr(a, "z")


@over(x=INTS)
def missing_attribute(x):
    return Box(x).nothing


@over(x=SMALL)
def closures(x):
    def add(y):
        return x + y
    fs = [lambda y, k=k: y + k + x for k in range(2)]
    return add(1), fs[0](1), fs[1](1)


@over(x=SMALL)
def nonlocal_count(x):
    n = 0

    def inc(by=1):
        nonlocal n
        n += by
        return n
    inc()
    inc(x)
    return n


@over(x=SMALL)
def recursion(x):
    def fact(n):
        return 1 if n <= 0 else n * fact(n - 1)
    return fact(x)


def _default(x, acc=[]):  # noqa
    acc.append(x)
    return len(acc)


class Settings(UserDict):
    def __setitem__(self, k, v):
        if v < 0:
            raise ValueError(k)
        super().__setitem__(k, v)


@over(x=INTS)
def user_dict(x):
    s = Settings()
    s["a"] = x
    return s["a"], len(s), "a" in s, s.get("b")


@over(d=DICTS)
def user_dict_from(d):
    s = Settings(d)
    return len(s)


@over(x=SMALL)
def none_attribute(x):
    a = None if x else Box(1)
    return a.l


# ------------------------------------------------------------------ iteration tools


@over(x=SMALL)
def permute(x):
    return [p for p in permutations((x, 5, 6), 2)][:3], len(list(permutations((1, 2, 3))))


@over(x=SMALL)
def isliced(x):
    return list(islice([1, 2, 3], x)), list(islice([1, 2, 3], 1, None))


@over(x=SMALL)
def products(x):
    return list(product((x, 1), "ab"))


@over(x=SMALL)
def chained(x):
    return list(itertools.chain([x], (1, 2))), list(itertools.chain.from_iterable([[x], [3]]))


@over(l=LISTS)
def iterator_used_up(l):  # noqa
    it = iter(l)
    a = next(it, None)
    return a, list(it)


@over(l=LISTS)
def generator_once(l):  # noqa
    g = (x for x in l)
    return sum(g), sum(g)


@over(l=LISTS)
def zip_short(l):  # noqa
    out = []
    for a, b in zip(l, (1, 2)):
        out.append(a * b)
    return out


@over(l=LISTS)
def loop_break_state(l):  # noqa
    n = 0
    last = None
    for x in l:
        if x == 2:
            break
        n += 1
        last = x
    return n, last


@over(l=LISTS)
def loop_continue_state(l):  # noqa
    out = 0
    for x in l:
        if x < 0:
            continue
        out += x
    return out


@over(l=LISTS)
def changed_while_looping(l):  # noqa
    m = list(l)
    for i in range(len(m)):
        m[i] = m[i] + 1
    return m


@over(l=LISTS)
def prefix(l):  # noqa
    out, s = [], 0
    for x in l:
        s += x
        out.append(s)
    return out


@over(l=LISTS)
def pairs(l):  # noqa
    return [(i, j) for i in range(len(l)) for j in range(i + 1, len(l))][:2], len([1 for i in l for j in l if i < j])


@over(x=SMALL)
def late_binding(x):
    fs = [lambda: k + x for k in range(3)]
    n = 1

    def g():
        return n + x
    n = 5
    return fs[0](), g()


@over(x=SMALL)
def late_binding_def(x):
    n = 1

    def g():
        return n + x
    n = 5
    return g()


@over(x=SMALL)
def loop_max(x):
    out = []
    for k in range(3):
        out.append(max([3, 1, 2][:2], default=k))
    return out


@over(l=LISTS, x=SMALL)
def immediate_closures(l, x):  # noqa
    return sorted(l, key=lambda v: v * (x - 1))


@over(x=SMALL)
def inner_assignment(x):
    n = 1

    def g(flag):
        if flag:
            n = 2
        return n
    return g(x)


LIMIT = 5


@over(x=SMALL)
def shadowed_global(x):
    if x == 1:
        LIMIT = 3  # noqa
    return LIMIT


@over(l=LISTS)
def zip_once(l):  # noqa
    z = zip(l, l)
    return list(z), list(z)


@over(l=LISTS)
def enumerate_once(l):  # noqa
    z = enumerate(l)
    n = 0
    for i, x in z:
        n += i
    for i, x in z:
        n += 100
    return n


@over(l=LISTS)
def next_next(l):  # noqa
    it = iter(l)
    return next(it), next(it)


@over(l=LISTS)
def lazy_generator(l):  # noqa
    m = list(l)
    g = (x for x in m)
    m.append(7)
    return sum(g)


@over(l=LISTS)
def generator_truth(l):  # noqa
    g = (x for x in l if x > 5)
    return "yes" if g else "no"


@over(d=DICTS)
def live_view(d):
    e = dict(d)
    ks = e.keys()
    e["z"] = 1
    return len(ks), list(ks)


@over(x=INTS)
def default_evaluated_early(x):
    n = 1

    def g(a=n + x):
        return a
    return g(), g(7)


@over(l=LISTS)
def iterator_arg(l):  # noqa
    def twice(it):
        return list(it), list(it)
    return twice(reversed(l))


# ------------------------------------------------------------------ aliasing and effects


def _push(l, x):  # noqa
    l.append(x)
    l = [0]  # noqa
    return l


@over(l=LISTS, x=SMALL)
def argument_changed(l, x):  # noqa
    m = list(l)
    r = _push(m, x)
    return m, r


@over(l=LISTS)
def plus_assign(l):  # noqa
    a = list(l)
    b = a
    a += [1]
    c = a
    c = c + [2]
    return b, a is b, c is a, len(a)


@over(x=SMALL)
def tuple_plus(x):
    a = (x,)
    b = a
    a += (1,)
    return a, b


@over(d=DICTS)
def shared_value(d):
    row = [0]
    e = {k: row for k in d}
    for k in e:
        e[k].append(1)
    return len(row)


@over(d=DICTS)
def own_values(d):
    e = {k: [0] for k in d}
    for k in e:
        e[k].append(d[k])
    return [len(v) for v in e.values()], [v[1] for v in e.values()]


@over(d=DICTS, k=WORDS)
def alias_in_dict(d, k):
    e = {x: {"n": v} for x, v in d.items()}
    if k in e:
        r = e[k]
        r["n"] = 7
        return e[k]["n"], [x["n"] for x in e.values()]
    return None


@over(x=SMALL, y=SMALL)
def swap_elements(x, y):
    g = [1, 2, 3]
    g[x], g[y] = g[y], g[x]
    return g


@over(x=SMALL)
def assignment_order(x):
    g = [0, 0, 0]
    i = 0
    i, g[i] = x, 5
    return i, g


@over(x=SMALL)
def reinsert(x):
    d = {"a": 1, "b": 2}
    del d["a"]
    d["a"] = x
    return list(d), d["a"]


@over(k=WORDS)
def reinsert_some(k):
    d = {"a": 1, "b": 2, "c": 3}
    d.pop(k, None)
    d[k] = 5
    return list(d)[-1], len(d)


@over(d=DICTS)
def grow_while_looping(d):
    e = dict(d)
    for k in e:
        e[k + "x"] = 1
    return len(e)


@over(d=DICTS)
def set_while_looping(d):
    e = dict(d)
    for k in e:
        e[k] = e[k] + 1
    return list(e.values())


@over(d=DICTS)
def delete_while_looping(d):
    e = dict(d)
    for k in e:
        if k == "a":
            del e[k]
    return len(e)


@over(l=LISTS)
def grow_list(l):  # noqa
    m = list(l)
    for x in m:
        if len(m) < 6:
            m.append(x)
    return len(m)


@over(l=LISTS)
def loop_variable_after(l):  # noqa
    for x in l:
        pass
    return x


@over(l=LISTS)
def loop_variable_unbound(l):  # noqa
    for x in l:
        y = x
    try:
        return y
    except UnboundLocalError:
        return "unbound"


@over(x=SMALL)
def name_unbound(x):
    try:
        raise ValueError("v")
    except ValueError as e:
        r = str(e)
    try:
        return e
    except UnboundLocalError:
        return r


@over(x=SMALL)
def while_else(x):
    n = 3
    while n:
        n -= 1
        if n == x:
            break
    else:
        return "all"
    return n


@over(x=SMALL)
def finally_overrides(x):
    try:
        if x == 0:
            raise ValueError("v")
        if x == 1:
            return "one"
    except ValueError:
        return "caught"
    finally:
        if x:
            return "final"  # noqa
    return "end"


@over(x=SMALL)
def break_in_try(x):
    out = []
    for i in (0, 1, 2):
        try:
            if i == x:
                break
            out.append(i)
        finally:
            out.append(10)
    return out


@over(x=SMALL)
def continue_in_try(x):
    n = 0
    for i in (0, 1, 2):
        try:
            if i == x:
                continue
            n += i
        finally:
            n += 10
    return n


@over(x=SMALL)
def nested_try(x):
    try:
        try:
            if x == 0:
                raise KeyError("k")
            if x == 1:
                raise ValueError("v")
        except KeyError:
            raise TypeError("t")
        finally:
            n = 1
    except (TypeError, ValueError) as e:
        return type(e).__name__, n
    return "none", n


@over(x=SMALL)
def bare_raise(x):
    try:
        try:
            [1][x]
        except IndexError:
            raise
    except LookupError:
        return "lookup"
    return "fine"


@over(l=LISTS)
def raise_in_loop(l):  # noqa
    for i, x in enumerate(l):
        if x == 3:
            raise KeyError(i)
        if x < 0:
            raise ValueError(i)
    return len(l)


@over(l=LISTS)
def raise_in_comprehension(l):  # noqa
    def f(x):
        if x > 2:
            raise ValueError(x)
        return x
    try:
        return len([f(x) for x in l])
    except ValueError:
        return "error"


@over(l=LISTS)
def effects_before_raise(l):  # noqa
    out = []
    try:
        for x in l:
            out.append(x)
            if x == 3:
                raise ValueError("x")
    except ValueError:
        out.append(99)
    return out


@over(l=LISTS)
def ties_first(l):  # noqa
    best, n = None, 0
    for i, x in enumerate(l):
        if best is None or x >= best:
            best, n = x, i
    return n, max(range(len(l)), key=lambda i: l[i]) if l else None


@over(l=LISTS)
def stable_sort(l):  # noqa
    return sorted(range(len(l)), key=lambda i: l[i]), sorted(range(len(l)), key=lambda i: l[i], reverse=True)


@over(l=LISTS)
def sort_none_result(l):  # noqa
    m = list(l)
    return m.sort() is None, m.append(1) is None


# ------------------------------------------------------------------ keys and types


@over(x=SMALL)
def bool_keys(x):
    d = {1: "one", 0: "zero"}
    return d.get(True), d.get(x == 1), True in d, (1.0 in d)


@over(x=SMALL)
def int_keys(x):
    d = {0: 5, 1: 6}
    return d.get(x), x in d


@over(x=SMALL)
def tuple_keys(x):
    d = {(0, 1): 5, (1, 2): 6}
    return d.get((x, x + 1)), (x, 1) in d


@over(x=INTS)
def to_int_forms(x):
    return int(x), int(x + 0.5), int(x - 0.5), float(x) == x, bool(x), int(x > 0)


@over(x=INTS)
def str_number(x):
    return str(x) == "1", str(x) == "-1", f"{x}" == str(x)


@over(x=SMALL)
def int_is(x):
    return x == 1.0, x is None, 1 == True, x == "1"  # noqa


@over(x=SMALL)
def sums_of_bools(x):
    return sum([x > 0, x > 1, True]), sum(x > i for i in range(3))


@over(x=SMALL)
def falsy(x):
    return [bool(v) for v in (0, 1, "", "a", None, [], [0], {}, (), (x,), 0.0)]


@over(x=SMALL)
def or_default(x):
    y = None if x == 0 else x - 1
    return y or 7, y if y is not None else 7


# ------------------------------------------------------------------ objects


class Bag:
    size = 3
    items = ()

    def __init__(self, *items, **named):
        self.items = list(items)
        self.named = named

    def __len__(self):
        return len(self.items)

    def __contains__(self, x):
        return x in self.items

    def __iter__(self):
        return iter(self.items)

    def __eq__(self, o):
        return isinstance(o, Bag) and len(o) == len(self)

    def add(self, x):
        self.items.append(x)
        return self

    def grow(self):
        self.size += 1
        return self.size


@over(x=SMALL)
def bag_truth(x):
    b = Bag(*[1] * 0)
    n = "full" if b else "empty"
    b.add(x)
    return n, "full" if b else "empty", x in b, 5 in b, [v for v in b]


@over(x=SMALL)
def class_attribute(x):
    a, b = Bag(), Bag()
    a.grow()
    a.grow()
    return a.size, b.size, Bag.size, Bag.items == ()


@over(x=SMALL)
def bag_equal(x):
    a, b = Bag(x), Bag(7)
    return a == b, a != b, a is b, a == 3, a in [b]


@over(x=SMALL)
def chained_calls(x):
    return len(Bag().add(x).add(2)), Bag(k=x).named.get("k")


@over(x=SMALL)
def bound_methods(x):
    a = Bag()
    f = a.add
    f(x)
    f(3)
    return a.items


class Proxy:
    def __init__(self, d):
        self._d = d

    def __getattr__(self, name):
        return self._d.get(name, -1)


@over(x=SMALL)
def getattr_hook(x):
    p = Proxy({"a": x})
    return p.a, p.b


class Guarded:
    def __setattr__(self, name, v):
        if v == 1:
            raise AttributeError(name)
        object.__setattr__(self, name, v)


@over(x=SMALL)
def setattr_hook(x):
    g = Guarded()
    g.a = x
    return g.a


class Lazy:
    def __init__(self, x):
        self.x = x

    @property
    def doubled(self):
        self.x = self.x * 2
        return self.x


@over(x=SMALL)
def property_effect(x):
    z = Lazy(x)
    a = z.doubled
    return a, z.doubled, z.x


@over(x=SMALL)
def property_readonly(x):
    z = Lazy(x)
    z.doubled = 1
    return z.x


@over(x=SMALL)
def object_copies(x):
    a = Bag(1, [x])
    b = copy.copy(a)
    c = copy.deepcopy(a)
    a.items.append(2)
    return len(b), len(c), b.items is a.items, c.items[1] is a.items[1]


@over(x=SMALL)
def multi_level(x):
    class T(Exception):
        pass
    return x


class Problem(Exception):
    pass


class SubProblem(Problem):
    def __init__(self, a, b="z"):
        super().__init__(a)
        self.b = b


@over(x=SMALL)
def own_exceptions(x):
    try:
        if x == 0:
            raise SubProblem("m", b="q")
        if x == 1:
            raise Problem("p")
    except SubProblem as e:
        return "sub", e.b
    except Problem:
        return "problem"
    return "none"


@over(x=SMALL)
def own_uncaught(x):
    if x:
        raise SubProblem(x)
    return x


COUNT = {"n": 0}


def _bump(k):
    COUNT["n"] += k
    return COUNT["n"]


@over(x=SMALL)
def global_state(x):
    COUNT["n"] = 0
    _bump(x)
    return _bump(1), COUNT["n"]


@over(x=SMALL)
def short_circuit(x):
    log = []

    def t(v):
        log.append(v)
        return v
    r = t(x) and t(5) or t(0)
    return r, log


@over(x=SMALL)
def conditional_effects(x):
    log = []
    if x > 0:
        log.append(1)
    log.append(2) if x > 1 else log.append(3)
    return log


@over(x=SMALL)
def chained_compare_once(x):
    log = []

    def t(v):
        log.append(v)
        return v
    r = t(0) < t(x) < t(2)
    return r, log


@over(x=SMALL, y=SMALL)
def grid_fill(x, y):
    g = [[0, 0, 0] for _ in range(3)]
    for i in range(x, 3):
        g[i][0:y] = [1] * y
    return g


@over(x=SMALL)
def grid_loop(x):
    g = [[0, 0, 0] for _ in range(3)]
    for i in range(x):
        for j in range(i + 1):
            g[i][j] = i + 1
    return g


@over(l=LISTS)
def index_loop_break(l):  # noqa
    i = 0
    while i < len(l) and l[i] != 2:
        i += 1
    return i


@over(l=LISTS)
def count_loops(l):  # noqa
    n = 0
    for x in l:
        if x > 0:
            n += 1
    return n


@over(l=LISTS)
def conditional_append(l):  # noqa
    out = []
    for x in l:
        if x > 0:
            out.append(x)
    return out, len(out)


@over(l=LISTS)
def any_loop(l):  # noqa
    found = False
    for x in l:
        if x == 2:
            found = True
    return found


@over(l=LISTS)
def last_match(l):  # noqa
    r = None
    for i, x in enumerate(l):
        if x > 0:
            r = i
    return r


@over(l=LISTS)
def adjacent(l):  # noqa
    prev = 0
    out = []
    for x in l:
        out.append(x - prev)
        prev = x
    return out


@over(l=LISTS)
def two_lists(l):  # noqa
    a, b = [], []
    for x in l:
        a.append(x)
        b.append(-x)
    return a, b, a == b


@over(d=DICTS)
def group(d):
    e = {}
    for k, v in d.items():
        e.setdefault(v > 0, []).append(k)
    return len(e)


@over(d=DICTS)
def invert(d):
    return len({v: k for k, v in d.items()})


@over(d=DICTS)
def same_key_twice(d):
    e = {}
    for k, v in d.items():
        e["x"] = v
    return e


@over(d=DICTS)
def nested_build(d):
    e = {}
    for k, v in d.items():
        e[k] = {}
        e[k]["v"] = v
        e[k]["l"] = [v, 0]
    return {k: x["v"] + len(x["l"]) for k, x in e.items()}


@over(d=DICTS)
def copies_of_rows(d):
    e = {k: {"v": v} for k, v in d.items()}
    f = {k: dict(x) for k, x in e.items()}
    g = dict(e)
    for k in e:
        e[k]["v"] = 0
    return [x["v"] for x in f.values()], [x["v"] for x in g.values()]


@over(d=DICTS)
def order_by(d):
    e = {k: d[k] for k in sorted(d, key=lambda k: d[k])}
    return list(e), e == d


@over(d=DICTS)
def enumerate_dict(d):
    return [(i, k, v) for i, (k, v) in enumerate(d.items())]


@over(d=DICTS)
def max_value_key(d):
    best, name = None, None
    for k, v in d.items():
        if best is None or v > best:
            best, name = v, k
    return name, best


@over(d=DICTS, l=LISTS)
def nested_sum(d, l):  # noqa
    s = 0
    for k in d:
        for x in l:
            s += x * d[k]
    return s


@over(l=LISTS, x=SMALL)
def chunks(l, x):  # noqa
    return [l[i:i + 2] for i in range(0, len(l), 2)], l[x::2] if False else None


@over(l=LISTS)
def del_slice(l):  # noqa
    m = list(l)
    m[1:] = []
    return m


@over(l=LISTS)
def extend_self(l):  # noqa
    m = list(l)
    m.extend(m)
    m.extend([1])
    return m


@over(l=LISTS)
def clear_list(l):  # noqa
    m = list(l)
    n = m
    m.clear()
    return n, len(m)


@over(l=LISTS, x=INTS)
def negative_index(l, x):  # noqa
    return l[-x] if 0 < x <= len(l) else None


@over(l=LISTS)
def in_place_sort_alias(l):  # noqa
    m = list(l)
    n = m
    m.sort(reverse=True)
    return n == m, len(n)


@over(l=LISTS)
def comparisons_of_lists(l):  # noqa
    return l < [1, 5], l >= [1], l == l[:], l == tuple(l)


@over(d=DICTS, e=DICTS)
def merge_in_place(d, e):
    f = dict(d)
    f.update(e)
    return len(f), "a" in f, list(f)[:1], f == e


@over(d=DICTS, e=DICTS)
def merge_operator(d, e):
    f = dict(d)
    f |= e
    return f.get("a"), f.get("b", 0), len(f) >= len(d), len(f) >= len(e)


@over(d=DICTS)
def merge_with_itself(d):
    d2 = dict(d)
    d2.update(d)
    return d2 == d, list(d2) == list(d)


class Private:
    __shared = 3

    def __init__(self, x):
        self.__x = x

    def get(self):
        return self.__x + self.__shared


class PrivateChild(Private):
    __shared = 10

    def __init__(self, x):
        super().__init__(x)
        self.__x = 100

    def both(self):
        return self.get(), self.__x


@over(x=INTS)
def private_names(x):
    return PrivateChild(x).both()


@over(x=INTS)
def private_name_outside(x):
    return Private(x).__x if x > 1 else Private(x)._Private__x


@over(l=LISTS)
def index_of_maximum(l):  # noqa
    best = 0
    for i, v in enumerate(l):
        if v > l[best]:
            best = i
    return best == 0 or l[best] == max(l), all(v <= l[best] for v in l)


@over(l=LISTS, x=INTS)
def maximum_by_hand(l, x):  # noqa
    best = x
    for v in l:
        if not v <= best:
            best = v
    return best == max(l + [x]), all(v <= best for v in l)


@over(l=LISTS, x=INTS)
def last_minimum_by_key(l, x):  # noqa
    best = x
    for v in l:
        if (v - 1) * (v - 1) <= (best - 1) * (best - 1):
            best = v
    return all((v - 1) * (v - 1) >= (best - 1) * (best - 1) for v in l)


@over(l=([], [1], [1, 2]))
def not_an_order(l):  # noqa
    best = 0
    for i, v in enumerate(l):
        if v > l[best] + 1:
            best = i
    return all(v <= l[best] for v in l)


@over(l=LISTS)
def max_with_key(l):  # noqa
    m = max(l, key=lambda v: (v - 1) * (v - 1), default=7)
    return m, all((v - 1) * (v - 1) <= (m - 1) * (m - 1) for v in l)


@over(l=LISTS)
def index_of_max_with_key(l):  # noqa
    i = max(range(len(l)), key=lambda i: l[i])
    return i == l.index(max(l)), l[i]


@over(d=DICTS)
def key_of_min(d):
    return min(d, key=d.get, default="none")


@over(d=DICTS)
def key_of_max_items(d):
    return max(d.items(), key=lambda kv: kv[1])[0]


@over(x=INTS, y=INTS)
def max_of_three_by_key(x, y):
    return max([x, y, 1], key=lambda v: -v), min((y, x), key=abs)


@over(l=LISTS)
def star_first(l):  # noqa
    *first, last = l
    return first[:1], last, len(first)


@over(l=LISTS)
def star_middle(l):  # noqa
    a, *m, z = l
    m.append(z)
    return a, m, l


@over(d=DICTS)
def star_values(d):
    first, *rest = d.values()
    return first, len(rest), rest[-1:]


@over(x=INTS)
def star_of_tuple(x):
    a, *r = (x, 1, 2) if x > 0 else (x,)
    return a, len(r)


@over(x=SMALL)
def pairs_below(x):
    l = [(i, j) for i in range(x) for j in range(i + 1, x)]  # noqa
    return len(l) <= x * x, all(i < j < x for i, j in l), (0, 1) in l


@over(l=LISTS)
def nested_append(l):  # noqa
    out = [7]
    for v in l:
        for k in range(v):
            out.append(v + k)
    return out[0], all(v >= 0 for v in out), len(out) >= 1


@over(l=LISTS)
def flatten(l):  # noqa
    m = [[v, v] for v in l]
    flat = [w for pair in m for w in pair]
    return len(flat) == 2 * len(l), all(w in l for w in flat)


@over(l=LISTS)
def extend_in_loop(l):  # noqa
    out = []
    for i, v in enumerate(l):
        out.extend([v] * i)
    return out[:1], len(out) >= 0


@over(x=INTS)
def round_digits(x):
    return round(x, 2), 0.66 < round(x / 3 - x / 3 + 2 / 3, 2) < 0.68, round(0.25, 1) <= round(0.75, 1)


# ------------------------------------------------------- displays, fromkeys


@over(xs=LISTS)
def unpacked_list(xs):
    return [*xs]


@over(xs=LISTS, ys=LISTS, x=SMALL)
def unpacked_lists(xs, ys, x):
    return [x, *xs, x + 1, *ys]


@over(d=DICTS)
def unpacked_keys(d):
    r = (*d, "z")
    return r[0], len(r)


@over(d=DICTS)
def from_keys(d):
    return dict.fromkeys(d, 0)


@over(xs=LISTS, x=SMALL)
def from_listed_keys(xs, x):
    r = dict.fromkeys(["a", "b"], x)
    r["c"] = len(xs)
    return r


@over(d=DICTS)
def from_keys_none(d):
    return dict.fromkeys(d)


@over(d=DICTS, x=INTS)
def replace_some_values(d, x):
    e = dict(d)
    for k in d:
        if d[k] > x:
            e[k] = x
    return e


@over(s=WORDS)
def part_of_text(s):
    return s in "a b"


@over(s=WORDS, x=INTS)
def part_of_text_or_error(s, x):
    y = s if x > 0 else x
    try:
        return y in "bc"
    except TypeError:
        return None


@over(d=DICTS, e=DICTS)
def update_of_empty(d, e):
    r = {}
    r.update(d)
    r.update(e)
    return r, list(r)


@over(d=DICTS)
def update_of_empty_in_order(d):
    r = {}
    r.update({k: 0 for k in d})
    return list(r) == list(d), len(r)


@over(l=LISTS)
def mapped(l):
    return list(map(lambda x: x + 1, l))


@over(l=LISTS, x=INTS)
def filtered(l, x):
    return list(filter(lambda y: y > x, l))


@over(l=LISTS)
def filtered_truth(l):
    return list(filter(None, l))


@over(l=LISTS, m=LISTS)
def mapped_pairs(l, m):
    return list(map(lambda x, y: x - y, l, m))


@over(l=LISTS)
def any_mapped(l):
    return any(map(lambda x: x > 1, l)), sum(map(abs, l))


@over(l=LISTS)
def map_loop(l):
    t = 0
    for x in map(abs, tuple(l)):
        t += x
    return t


@over(l=LISTS)
def all_different(l):
    return len(set(l)) == len(l)


@over(l=LISTS)
def all_different_by_hand(l):
    return (len(set(l)) == len(l)) == all(l[i] != l[j] for i in range(len(l)) for j in range(i))


@over(l=LISTS, x=INTS)
def next_default(l, x):
    return next((y for y in l if y > x), None)


@over(l=LISTS, x=INTS)
def next_or_error(l, x):
    try:
        return next(y + 1 for y in l if y > x)
    except StopIteration:
        return "none"


@over(d=DICTS, x=INTS)
def next_key(d, x):
    k = next((k for k, v in d.items() if v == x), "-")
    return k


@over(l=LISTS, x=INTS)
def next_target_is_local(l, x):
    y = 7
    z = next((y for y in l if y < x), y)
    return y, z


@over(l=LISTS, x=INTS)
def none_or_zero(l, x):
    t = x if x > 0 else None
    m = t or 0
    for y in l:
        m = max(m, y)
    return m, t or -1, t and 5


# ------------------------------------------------------------- user values


@over(v=ANY)
def g_type(v):
    return isinstance(v, dict), isinstance(v, (int, float)), isinstance(v, bool), v is None, isinstance(v, (list, tuple)), isinstance(v, str)


@over(v=ANY)
def g_truth(v):
    return bool(v), not v, 1 if v else 2


@over(v=ANY)
def g_len(v):
    return len(v)


@over(v=ANY)
def g_compare(v):
    return v > 1


@over(v=ANY)
def g_equal(v):
    return v == "a", v == 2, v == 1, v is not None, v in ("a", "b")


@over(v=ANY)
def g_item(v):
    return v["a"]


@over(v=ANY)
def g_index(v):
    return v[0]


@over(v=ANY)
def g_items(v):
    return sum(1 for _ in v.items())


@over(v=ANY)
def g_key(v):
    return {"a": 1}.get(v, 2)


@over(v=ANY)
def g_sum(v):
    return v + 1


@over(v=ANY)
def g_int(v):
    return type(v) is int, type(v) == int  # noqa


@over(v=ANY)
def g_loop(v):
    n = 0
    for _ in v:
        n += 1
    return n


@over(v=ANY)
def g_empty(v):
    return v == {}, v == [], v != ()


@over(v=GDICTS)
def g_get(v):
    return v.get("a"), v.get("b", 5), "c" in v


@over(v=GDICTS)
def g_get_item(v):
    return v["a"]


@over(v=GDICTS)
def g_keys(v):
    return [k for k in v]


@over(v=GDICTS)
def g_values(v):
    return [x for x in v.values()]


@over(v=GDICTS)
def g_pairs(v):
    out = []
    for k, x in v.items():
        out.append((k, x))
    return out


@over(v=GDICTS)
def g_all(v):
    return all(isinstance(x, int) for x in v.values()), any(k == "b" for k in v)


@over(v=GDICTS)
def g_set(v):
    return set(v) == {"a", "b"}, set(v) <= {"a", "b"}, len(set(v) - {"a"})


@over(v=GDICTS)
def g_copy(v):
    return {k: v[k] for k in v}


@over(v=GDICTS)
def g_pos(v):
    return [x > 0 for x in v.values()]


@over(v=GLISTS)
def g_head(v):
    return v[0], v[-1]


@over(v=GLISTS)
def g_slice(v):
    return [x for x in v[1:]], len(v[:1]), v[:0] == []


@over(v=GLISTS)
def g_in(v):
    return "a" in v, 1 in v, None in v


@over(v=GLISTS)
def g_list(v):
    return list(v), len(set(v)) == len(v)


@over(v=GLISTS)
def g_rest(v):
    n = 0
    for i, x in enumerate(v):
        if x == "b":
            return i
        n += 1
    return -n


@over(v=ANY)
def g_twice(v):
    return v * 2


@over(v=ANY, w=Given((1, "b")))
def g_plus(v, w):
    return v + w


@over(v=ANY)
def g_minus(v):
    return -v


@over(v=ANY)
def g_range(v):
    return len(range(v))


@over(v=ANY)
def g_pick(v):
    return [5, 6, 7][v]


@over(v=ANY)
def g_less(v):
    return v < 2, 1 >= v


@over(v=ANY, w=Given((1, "b", None)))
def g_less2(v, w):
    return v < w


@over(v=ANY)
def g_half(v):
    return v / 2


@over(v=GDICTS)
def g_subset(v):
    return set(v) <= {"a", "b"}, set(v) < {"a", "b"}, set(v) >= {"a"}, v.keys() <= {"a", "b"}, {"a"} < v.keys()


@over(v=GDICTS)
def g_set_methods(v):
    s = set(v)
    return s.issuperset({"a"}), s.isdisjoint(["c"]), "a" in s.intersection(["a", "b"]), s.issubset({"a", "b"})


@over(d=DICTS)
def key_sets(d):
    return d.keys() <= {"a", "b"}, d.keys() == {"a"}, set(d) == {"a", "b"}, {"a"} <= set(d)


@over(l=LISTS, k=INTS)
def list_insert(l, k):  # noqa
    l.insert(k, 9)
    return l, len(l)


@over(l=LISTS)
def deque_left(l):  # noqa
    d = deque(l)
    d.appendleft(7)
    return d[0], d[-1], len(d), d.popleft()


@over(l=LISTS)
def list_popleft(l):  # noqa
    l.popleft()


@over(l=LISTS)
def backwards(l):  # noqa
    return l[::-1], [x for x in reversed(l)], "abc"[::-1]


@over(w=WORDS)
def text_tests(w):
    return w.startswith("a"), w.endswith("b"), w.isdigit(), "a".startswith("a")


@over(l=LISTS)
def delete_at(l):  # noqa
    del l[0]
    return l


@over(l=LISTS)
def delete_slice(l):  # noqa
    del l[1:]
    return l


@over(l=LISTS)
def deque_slice(l):  # noqa
    return deque(l)[1:]


@over(x=INTS)
def text_parts(x):
    return "abc"[0], "abc"[1:], "abc"[-1], "abc"[::2], "abc"[:0] == "", x


@over(x=SMALL)
def text_none(x):
    return "abc"[5]
