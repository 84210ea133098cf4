"""C12: couples and subsets contain the right images, once, whatever the order of arrival.

make_couples and make_subsets are verified from every state of the queues (any couples, any available
images) with an explicit invariant of their loop over the couples: after the first k couples, the couples
left are those of the beginning except the completed ones, the images left are those still used by a couple
which is left, and the output queue has one more entry per completed couple."""
from pyvc.spec import *
from pyvc import models, odict
import z3
from pyvc.models import str_concat
from z3 import If

PIV = "topologies.piv:TopologyPIV"
PRE = "topologies.preproc:TopologyPreproc"
BASE = "topologies.base"


def mkqueue(S, name, state):
    q = S.new(BASE + ":Queue", name=name, kind=None)
    q.attrs["__od__"] = state
    return q


def od(q):
    return q.attrs["__od__"]


def b(x):
    return zb(x)


class Scene:
    """queues in an arbitrary state; members(q) is the tuple of names of the item of key q"""

    def __init__(self, S):
        self.S = S
        E = S.E
        self.N0 = self.names_state()
        self.A0 = odict.fresh(S, "images")
        self.O0 = odict.fresh(S, "output", keyk="int")
        self.qN = mkqueue(S, "couples of names", self.N0)
        self.qA = mkqueue(S, "arrays", self.A0)
        self.qO = mkqueue(S, "output", self.O0)
        # use(k, x): one of the items left after k iterations uses the image x (wit(k, x) is one of them)
        self.use = E.fresh_fun("use", "int", "str", "bool")
        self.wit = E.fresh_fun("user", "int", "str", "int")
        self.objects = [self.qN, self.qA, self.qO]
        self.n = self.N0.n
        self.stub()
        S.I.loop_rules = [self]
        # the images which are available are used by a couple
        self.i = S.int("i0", 0)
        self.x = S.str("x")           # an arbitrary image
        self.q = S.int("q")           # an arbitrary item
        S.req(Implies(b(self.A0.has(self.x)), self.use(0, self.x.e)))

    # ---- the state after k iterations
    def done(self, k, q):
        r = ze(self.N0.rank(q))
        return And(b(self.N0.has(q)), r < ze(k), self.available(q))

    def left(self, k, q):
        return And(b(self.N0.has(q)), Not(And(ze(self.N0.rank(q)) < ze(k), self.available(q))))

    def kept(self, k, x):
        return And(b(self.A0.has(x)), self.use(ze(k), ze(x)))

    def use_facts(self, k, x, q=None):
        """definition of use for the image x (and the item q)"""
        w = self.witness(k, x)
        f = [Implies(self.use(ze(k), ze(x)), And(self.left(k, w), self.uses(w, x)))]
        if q is not None:
            f.append(Implies(And(self.left(k, q), self.uses(q, x)), self.use(ze(k), ze(x))))
        return And(*f)

    def put(self, k):
        S = self.S
        N0, A0, O0 = self.N0, self.A0, self.O0
        stored = S.E.fresh_fun("stored", "int", "obj")

        def unknown(i):
            raise Unsupported("order of the items of a queue modified in a loop")
        self.qN.attrs["__od__"] = odict.OD(S.int("left_n"), N0.key, N0.rank, lambda q: self.left(k, q), N0.get)
        self.qA.attrs["__od__"] = enumerated(S, lambda x: self.kept(k, x), A0.get)
        self.qO.attrs["__od__"] = odict.OD(
            S.int("output_n"), unknown, lambda q: unknown(q),
            lambda q: Or(b(O0.has(q)), self.done(k, q)),
            lambda q: vite_done(self, k, q, stored))

    def witness(self, k, x):
        return Sv(self.wit(ze(k), ze(x)), "int")

    # ---- the invariant
    def establish(self):
        S, x, q = self.S, self.x, self.q
        S.ens("at the beginning: nothing was changed before the loop", z3.BoolVal(
            od(self.qN) is self.N0 and od(self.qA) is self.A0 and od(self.qO) is self.O0))
        S.ens("at the beginning: the images are used", Implies(b(self.A0.has(x)), self.kept(0, x)))

    def havoc(self, k):
        self.put(k)
        self.k = k
        self.S.req(self.use_facts(k, self.x, self.q))

    def start(self, k):
        """beginning of the iteration k"""
        self.qk = self.N0.key(k)
        self.S.req(And(b(self.N0.has(self.qk)), ze(self.N0.rank(self.qk)) == ze(k)))
        self.N1, self.A1, self.O1 = od(self.qN), od(self.qA), od(self.qO)
        self.asked = []
        for x in self.members(self.qk):
            self.S.req(self.use_facts(k, x, self.qk))
            self.S.req(self.use_facts(Sv(ze(k) + 1, "int"), x, self.qk))
            # precondition: the items do not share their key with a previous result
        self.S.req(Not(b(self.O0.has(self.qk))))

    def preserve(self, k):
        S, x, q = self.S, self.x, self.q
        k1 = Sv(ze(k) + 1, "int")
        av = self.available(self.qk)
        N, A, O = od(self.qN), od(self.qA), od(self.qO)
        # instances of the definitions for the arbitrary image and its witnesses
        for kk in (k, k1):
            S.req(self.use_facts(kk, x, self.witness(k, x)))
            S.req(self.use_facts(kk, x, self.witness(k1, x)))
            S.req(self.use_facts(kk, x, self.qk))
        for state, y, r in self.asked:
            S.req(Implies(Not(r), Not(And(b(state.has(self.witness(k1, x))), self.uses(self.witness(k1, x), y)))))
        self.rank_facts(q)
        done = S.when(av)
        if done:
            S.cover("an item is completed")
            S.ens("a completed item leaves the waiting ones", Not(b(N.has(self.qk))))
            S.ens("a completed item is produced", b(O.has(self.qk)))
            self.value(O.get(self.qk))
        else:
            S.cover("an item waits")
            S.ens("an item which misses an image waits", b(N.has(self.qk)))
            S.ens("nothing is produced for it", Not(b(O.has(self.qk))))
        S.ens("the items left", b(N.has(q)) == self.left(k1, q))
        S.ens("the items produced", b(O.has(q)) == Or(b(self.O0.has(q)), self.done(k1, q)))
        if S.when(ze(q) != ze(self.qk)):
            S.ens("the other results are kept", Implies(b(self.O1.has(q)), S.eq(O.get(q), self.O1.get(q))))
        if S.when(b(A.has(x))):
            S.cover("an image is kept")
            S.ens("an image which is kept was there", b(self.A0.has(x)))
            S.ens("an image which is kept is used by a waiting item", self.use(ze(k1), ze(x)))
            S.ens("its content is the same", S.eq(A.get(x), self.A0.get(x)))
        else:
            if S.when(And(z3.BoolVal(done), b(self.A1.has(x)))):
                S.cover("an image is dropped")
            S.ens("an image used by a waiting item is kept", Not(self.kept(k1, x)))

    def rank_facts(self, q):
        """keys of different ranks differ"""
        self.S.req(Implies(And(b(self.N0.has(q)), ze(self.N0.rank(q)) == ze(self.k)), ze(q) == ze(self.qk)))

    def final(self):
        """postcondition of the whole function"""
        S, x, q = self.S, self.x, self.q
        N, A, O = od(self.qN), od(self.qA), od(self.qO)
        S.req(And(ze(self.n) >= 0, Implies(b(self.N0.has(q)), ze(self.N0.rank(q)) < ze(self.n))))
        av = self.available(q)
        if S.when(And(b(self.N0.has(q)), Not(b(self.O0.has(q))))):
            S.ens("it is produced if and only if its images are available", b(O.has(q)) == av)
            S.ens("it waits if and only if an image is missing", b(N.has(q)) == Not(av))
        else:
            S.ens("nothing else waits", Implies(Not(b(self.N0.has(q))), Not(b(N.has(q)))))
            S.ens("nothing else is produced", b(O.has(q)) == b(self.O0.has(q))) if not S.when(b(self.N0.has(q))) else None
        if S.when(b(A.has(x))):
            S.ens("no image appears", b(self.A0.has(x)))
            w = Sv(self.wit(ze(self.n), ze(x)), "int")
            S.ens("an image which is kept is needed by a waiting item", And(b(N.has(w)), self.uses(w, x)))
        else:
            S.ens("an image needed by a waiting item is kept", Implies(And(
                b(self.A0.has(x)), b(N.has(q))), Not(self.uses(q, x))))

    def stub(self):
        S = self.S
        def is_name_in_values(I, queue, name):
            """contract verified by `still_needed`"""
            s = od(queue)
            r = S.bool("needed")
            w = S.int("needing")
            S.req(Implies(b(r), And(b(s.has(w)), self.uses(w, name))))
            for q in (self.q, self.qk):
                S.req(Implies(Not(b(r)), Not(And(b(s.has(q)), self.uses(q, name)))))
            # the definition of use after this iteration, for the item found
            S.req(self.use_facts(Sv(ze(self.k) + 1, "int"), name, w))
            S.req(self.use_facts(Sv(ze(self.k) + 1, "int"), self.x, w))
            self.rank_facts(w)
            self.asked.append((s, name, b(r)))
            return r
        S.stub(BASE + ":Queue.is_name_in_values", is_name_in_values)


def enumerated(S, has, get):
    """a dictionary with the keys which satisfy `has`, in an arbitrary order"""
    n = S.int("kept_n", 0)
    keys = S.E.fresh_fun("kept_key", "int", "str")
    ranks = S.E.fresh_fun("kept_rank", "str", "int")

    def key(i):
        x = Sv(keys(ze(i)), "str")
        S.req(Implies(And(ze(i) >= 0, ze(i) < ze(n)), And(b(has(x)), ranks(x.e) == ze(i))))
        return x

    def rank(x):
        r = ranks(ze(x))
        S.req(Implies(b(has(x)), And(r >= 0, r < ze(n), keys(r) == ze(x))))
        return Sv(r, "int")
    return odict.OD(n, key, rank, has, get)


def vite_done(scene, k, q, stored):
    return odict.pick(z3.simplify(And(Not(b(scene.O0.has(q))), scene.done(k, q))),
                      lambda: Sv(stored(ze(q)), "obj"), lambda: scene.O0.get(q))


class Couples(Scene):
    def names_state(self):
        E = self.S.E
        self.a = E.fresh_fun("first_name", "int", "str")
        self.b_ = E.fresh_fun("second_name", "int", "str")
        return odict.fresh(self.S, "couples", keyk="int", get=lambda q: self.members(q))

    def members(self, q):
        q = ze(q)
        # precondition: a couple contains two images
        self.S.req(self.a(q) != self.b_(q))
        return Sv(self.a(q), "str"), Sv(self.b_(q), "str")

    def available(self, q):
        x, y = self.members(q)
        return And(b(self.A0.has(x)), b(self.A0.has(y)))

    def uses(self, q, x):
        y, z = self.members(q)
        return Or(ze(y) == ze(x), ze(z) == ze(x))

    def value(self, v):
        S = self.S
        x, y = self.members(self.qk)
        v1, v2 = self.A0.get(x), self.A0.get(y)
        if S.when(b(S.call_builtin("isinstance", v1, Exception))):
            S.ens("the error of the first image is the result", S.eq(v, v1))
        elif S.when(b(S.call_builtin("isinstance", v2, Exception))):
            S.ens("the error of the second image is the result", S.eq(v, v2))
        else:
            S.ens("a couple is created", z3.BoolVal(getattr(v, "cls", None) == "couple"))
            S.ens("its names are those of the requested couple, in order", And(
                S.eq(v.attrs["names"][0], x), S.eq(v.attrs["names"][1], y)))
            S.ens("its images are those of its names, in order", And(
                S.eq(v.attrs["arrays"][0], v1), S.eq(v.attrs["arrays"][1], v2)))
            S.ens("two images", z3.BoolVal(len(v.attrs["arrays"]) == 2 and len(v.attrs["names"]) == 2))
            S.ens("its serie is that of its key", S.eq(v.attrs["serie"], self.serie(self.qk)))


@contract("C12")
def couples(S):
    """TopologyPIV.make_couples from every state of the queues"""
    sc = Couples(S)
    series = S.E.fresh_fun("serie", "int", "obj")
    sc.serie = lambda q: Sv(series(ze(q)), "obj")
    mask = S.choose(2)
    params = S.ns("params", mask=S.obj("mask")) if mask else S.ns("params")
    top = S.new(PIV, params=params, series=S.ns("series", get_serie_from_index=lambda I, q: sc.serie(q)))

    S.stub("data_objects.piv:ArrayCouple", lambda I, **kw: S.ns("couple", **kw))
    r, exc = S.attempt(lambda: S.meth(top, "make_couples", (sc.qN, sc.qA), sc.qO))
    S.ens("no exception", z3.BoolVal(exc is None))
    sc.final()
    S.cover("end")


@contract("C12")
def still_needed(S):
    """Queue.is_name_in_values: an image is needed if and only if one of the waiting items uses it"""
    E = S.E
    n = S.int("n", 0)
    form = S.choose(2)
    if form:
        a, c = E.fresh_fun("first_name", "int", "str"), E.fresh_fun("second_name", "int", "str")
        get = lambda q: (Sv(a(ze(q)), "str"), Sv(c(ze(q)), "str"))
        uses = lambda q, x: Or(a(ze(q)) == ze(x), c(ze(q)) == ze(x))
    else:
        mem = E.fresh_fun("uses", "int", "str", "bool")
        m = E.fresh_fun("nb_names", "int", "int")
        nam = E.fresh_fun("names", "int", "int", "str")
        uses = lambda q, x: mem(ze(q), ze(x))

        def get(q):
            S.req(m(ze(q)) >= 0)
            l = VList(n=Sv(m(ze(q)), "int"), get=lambda i: Sv(nam(ze(q), ze(i)), "str"))
            l.facts = {"member": lambda x: mem(ze(q), ze(x))}
            return l
    s = odict.fresh(S, "items", n, keyk="int", get=get)
    q = mkqueue(S, "items", s)
    x = S.str("x")
    i = S.idx("i", n)
    r = S.meth(q, "is_name_in_values", x)
    if S.when(zb(r)):
        j = S.int("j")
        # some item uses it: otherwise (no item uses x) the answer cannot be True
        S.ens("an image which no item uses is not needed", z3.Exists([j.e], And(
            j.e >= 0, j.e < ze(n), uses(s.key(j), x))))
    else:
        S.ens("an image used by an item is needed", Not(uses(s.key(i), x)))
    S.ens("nothing is changed", z3.BoolVal(od(q) is s))


@contract("C12")
def array_couple(S):
    """ArrayCouple built by make_couples: names and images of the serie, in order"""
    E = S.E
    x, y = S.str("x"), S.str("y")
    H, W = S.int("H", 1), S.int("W", 1)
    im0, im1 = S.arr("im0", (H, W)), S.arr("im1", (H, W))
    px, py = S.str("px"), S.str("py")
    serie = S.ns("serie", get_name_arrays=lambda I: (x, y), get_path_arrays=lambda I: (px, py),
                 check_all_files_exist=lambda I: True)
    mask = [None, "None", "10:40, 5:30"][S.choose(3)]
    if mask is None:
        pm = None
    else:
        pm = S.ns("mask", strcrop=None if mask == "None" else mask)
        S.req(And(ze(H) >= 40, ze(W) >= 30))
    c = S.call("data_objects.piv:ArrayCouple", names=(x, y), arrays=(im0, im1), params_mask=pm, serie=serie)
    S.ens("names", And(S.eq(c.attrs["names"][0], x), S.eq(c.attrs["names"][1], y)))
    S.ens("the name of the couple", S.eq(c.attrs["name"], str_concat([x, "-", y])))
    S.ens("serie", z3.BoolVal(c.attrs["serie"] is serie))
    arrays = S.meth(c, "get_arrays")
    i, j = S.idx("i", H), S.idx("j", W)
    for a, im in zip(arrays, (im0, im1)):
        if mask == "10:40, 5:30":
            S.ens("shape of the crop", And(ze(a.shape[0]) == 30, ze(a.shape[1]) == 25))
            S.req(And(ze(i) < 30, ze(j) < 25))
            S.ens("pixels of the crop", S.eq(S.get(a, (i, j)), S.get(im, (Sv(ze(i) + 10, "int"), Sv(ze(j) + 5, "int")))))
        else:
            S.ens("pixels", S.eq(S.get(a, (i, j)), S.get(im, (i, j))))
    S.ens("two images", z3.BoolVal(len(arrays) == 2))


class Subsets(Scene):
    """items with any number of images"""

    def names_state(self):
        E = self.S.E
        self.m = E.fresh_fun("nb_names", "int", "int")
        self.nam = E.fresh_fun("names", "int", "int", "str")
        self.pos = E.fresh_fun("position", "int", "str", "int")
        self.av = E.fresh_fun("all_available", "int", "bool")
        self.mis = E.fresh_fun("missing", "int", "int")
        return odict.fresh(self.S, "subsets", keyk="int", get=self.names_of)

    def names_of(self, q):
        q = ze(q)
        self.S.req(self.m(q) >= 1)
        l = VList(n=Sv(self.m(q), "int"), get=lambda i: Sv(self.nam(q, ze(i)), "str"))
        l.facts = {"member": lambda x: self.uses(q, x)}
        l.key = q
        return l

    def members(self, q):
        # one arbitrary name of the item, and its missing image when there is one
        q = ze(q)
        return Sv(self.nam(q, ze(self.i)), "str"), Sv(self.nam(q, self.mis(q)), "str")

    def available(self, q):
        """all its images are available (mis(q): the position of a missing one)"""
        q = ze(q)
        mis = self.mis(q)
        self.S.req(Implies(Not(self.av(q)), And(mis >= 0, mis < self.m(q), Not(b(self.A0.has(Sv(self.nam(q, mis), "str")))))))
        return self.av(q)

    def uses(self, q, x):
        """x is one of its names (pos: its position)"""
        q, x = ze(q), ze(x)
        p = self.pos(q, x)
        return And(p >= 0, p < self.m(q), self.nam(q, p) == x)

    def start(self, k):
        self.qk = self.N0.key(k)
        j = z3.Int("j")
        x = self.nam(ze(self.qk), j)
        rng = And(j >= 0, j < self.m(ze(self.qk)))
        # the definitions of the predicates for this item
        self.S.req(z3.ForAll([j], Implies(rng, self.uses(self.qk, Sv(x, "str"))), patterns=[x]))
        self.S.req(z3.ForAll([j], Implies(rng, self.use(ze(k), x)), patterns=[x]))
        self.S.req(z3.ForAll([j], Implies(And(rng, self.available(self.qk)), b(self.A0.has(Sv(x, "str")))), patterns=[x]))
        super().start(k)

    def value(self, v):
        S = self.S
        S.ens("a subset is created", z3.BoolVal(getattr(v, "cls", None) == "subset"))
        m = Sv(self.m(ze(self.qk)), "int")
        names, arrays = v.attrs["names"], v.attrs["arrays"]
        i = S.idx("i", m)
        name = Sv(self.nam(ze(self.qk), ze(i)), "str")
        S.ens("its names are those of the requested subset, in order", And(
            S.eq(S.len(names), m), S.eq(S.get(names, i), name)))
        S.ens("its images are those of its names, in order", And(
            S.eq(S.len(arrays), m), S.eq(S.get(arrays, i), self.A0.get(name))))
        S.ens("its serie is that of its key", S.eq(v.attrs["serie"], self.serie(self.qk)))


class Cleanup:
    """invariant of the loop which drops the images: after j images, those not needed are dropped"""

    def __init__(self, scene):
        self.sc = scene
        self.objects = [scene.qA]

    @property
    def n(self):
        return od(self.sc.qA).n

    def establish(self):
        sc = self.sc
        self.A1 = od(sc.qA)
        self.k1 = Sv(ze(sc.k) + 1, "int")
        S, q = sc.S, sc.q
        w = sc.witness(self.k1, sc.x)
        S.ens("the images are dropped for the items which are left", And(
            b(od(sc.qN).has(q)) == sc.left(self.k1, q)))

    def has(self, j, x):
        return And(b(self.A1.has(x)), Not(And(ze(self.A1.rank(x)) < ze(j), Not(self.sc.use(ze(self.k1), ze(x))))))

    def havoc(self, j):
        S, A1 = self.sc.S, self.A1
        self.sc.qA.attrs["__od__"] = enumerated(S, lambda x: self.has(j, x), A1.get)

    def start(self, j):
        sc = self.sc
        self.y = self.A1.key(j)
        sc.S.req(sc.use_facts(self.k1, self.y))

    def preserve(self, j):
        sc, S, x = self.sc, self.sc.S, self.sc.x
        A = od(sc.qA)
        S.req(Implies(And(b(self.A1.has(x)), ze(self.A1.rank(x)) == ze(j)), ze(x) == ze(self.y)))
        j1 = Sv(ze(j) + 1, "int")
        w = sc.witness(self.k1, self.y)
        for state, y, r in sc.asked:
            S.req(Implies(Not(r), Not(And(b(state.has(w)), sc.uses(w, y)))))
        S.ens("an image is dropped if and only if no item left needs it", b(A.has(x)) == self.has(j1, x))
        S.ens("the content of the images is the same", Implies(b(A.has(x)), S.eq(A.get(x), self.A1.get(x))))


@contract("C12")
def subsets(S):
    """TopologyPreproc.make_subsets from every state of the queues, any number of images per subset"""
    sc = Subsets(S)
    S.I.loop_rules = [sc, Cleanup(sc)]
    series = S.E.fresh_fun("serie", "int", "obj")
    sc.serie = lambda q: Sv(series(ze(q)), "obj")
    top = S.new(PRE, series=S.ns("series", nb_series=S.int("nb_series", 0), get_serie_from_index=lambda I, q: sc.serie(q)))

    def subset(I, names, arrays, serie, **others):
        return S.ns("subset", names=names, arrays=models.as_seq(I, arrays), serie=serie)
    S.stub("data_objects.preproc:ArraySerie", subset)
    r, exc = S.attempt(lambda: S.meth(top, "make_subsets", (sc.qN, sc.qA), sc.qO))
    S.ens("no exception", z3.BoolVal(exc is None))
    sc.final()
    S.cover("end")
