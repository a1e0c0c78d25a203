"""Reference model of the documented settings and their rules."""

ALG, APP = ["bdd", "zbdd", "mocus"], ["none", "rare-event", "mcub"]


class Rejected(Exception):
    pass


class Ref:
    """The documented settings and their rules."""

    def __init__(self):
        self.alg = self.app = 0
        self.pi = self.prob = self.sil = self.imp = self.unc = self.ccf = False
        self.lim, self.tri, self.qua, self.bin, self.seed = 20, 1000, 20, 20, 0
        self.cut, self.mis, self.step = 1e-8, 8760.0, 0.0

    def algorithm(self, i):
        self.alg = i
        if i == 0:
            self.app = 0
        else:
            self.pi = False
            self.app = self.app or 1

    def approximation(self, i):
        if i and self.pi:
            raise Rejected("approximation with prime implicants")
        self.app = i

    def prime_implicants(self):
        if self.alg:
            raise Rejected("prime implicants without BDD")
        self.pi, self.app = True, 0

    def probability(self, flag):
        if not (self.sil or self.imp or self.unc):
            self.prob = flag

    def analysis(self, name, flag):
        if name == "probability":
            return self.probability(flag)
        if name == "sil" and flag and not self.step:
            raise Rejected("SIL without a time step")
        setattr(self, {"importance": "imp", "uncertainty": "unc", "ccf": "ccf", "sil": "sil"}[name], flag)
        if flag and name != "ccf":
            self.prob = True

    def number(self, name, v):
        low = {"lim": 0, "tri": 1, "qua": 1, "bin": 1, "seed": 0, "cut": 0, "mis": 0, "step": 0}[name]
        if not v >= low or (name == "cut" and v > 1) or (name == "step" and v == 0 and self.sil):
            raise Rejected("%s %r" % (name, v))
        setattr(self, name, v)

    def text(self):
        b = lambda x: int(bool(x))  # noqa: E731
        return dict(alg=self.alg, app=self.app, pi=b(self.pi), prob=b(self.prob), sil=b(self.sil),
                    imp=b(self.imp), unc=b(self.unc), ccf=b(self.ccf), lim=self.lim, tri=self.tri,
                    qua=self.qua, bin=self.bin, seed=self.seed, cut=self.cut, mis=self.mis,
                    step=self.step)
