"""Which runs decide which property."""
from engine import MC, Suite


class Prop:
    def __init__(self, suites, mcs=(), level="model_checking", assumptions=()):
        self.suites, self.mcs, self.level = suites, list(mcs), level
        self.assumptions = list(assumptions)


# ------------------------------------------------------------ structured profile
STATS = {"min", "max", "sum", "mean", "var", "std", "skew", "kurt", "zeros", "negs"}
PREC = {"prec.min", "prec.max", "prec.n", "prec.mean", "prec.var", "prec.spread"}
HIST = {"hist.present", "hist.total", "hist.lo", "hist.hi", "hist.nonneg", "hist.edges", "hist.cum",
        "quant.mono", "quant.rank", "median", "mad", "mode"}
ORDER = {"order"}
CATS = {"uniq", "iscat", "hascats", "cats", "catlist", "gini", "unal"}
NULLS = {"n", "nullc", "nulltypes", "nullidx", "samples"}
ROWS = {"rows", "used", "hasnull", "isnull", "rowuniq", "rowdup"}
TYPES = {"dtype", "repr"}
SCHEMA = {"ncols", "schema", "names"}
DATES = {"dmin", "dmax", "fmt"}
TEXT = {"vocab"}
PAIRS = {"chi2", "corr", "nrep.none", "nrep.prior", "nrep.sum"}
UTEXT = {"lines", "empty", "memory", "chars", "charcount", "words", "wordcount"}
SAMPLING = {"sample.size", "sample.rows", "sample.seed", "sample.default"}
VALUES = STATS | PREC | HIST | CATS | NULLS | ROWS | TYPES | SCHEMA | DATES | TEXT | ORDER

COLMC = MC("ColumnMC", {"MaxLen": 2}, {"MaxLen": 3},
           invariants=("Concat", "Identity", "Assoc", "TypeSound", "Counts"))


ORDERMC = MC("OrderMC", {"MaxLen": 2, "MaxBatches": 3}, {"MaxLen": 3, "MaxBatches": 3},
             invariants=("SingleBatch", "RandomFinal", "Monotone", "Symmetric"))


def profmc(props=True):
    return MC("ProfilerMC", {"NP": 2, "MaxRows": 1, "MaxOps": 3}, {"NP": 2, "MaxRows": 2, "MaxOps": 3},
              subst={"Alpha": "AlphaTiny"}, view="View",
              invariants=("IncrementalIsDirect", "Rectangular", "GlobalSane", "MergeAssoc", "LabelsDistinct"),
              properties=("OnlyTarget", "RejectsInert"))


class AnyOf:
    def __init__(self, *prefixes):
        self.p = prefixes

    def __call__(self, f):
        return any(f.clause.startswith(x) for x in self.p)


UTEXTMC = MC("UTextMC", {"MaxOps": 3}, {"MaxOps": 4},
             invariants=("IncrementalIsDirect", "Lengths", "MergeAssoc", "FoldKeeps"))


def utext(flavour, quick, thorough, claim):
    return Suite("utext", "UTextGen", "UTextTrace", flavour, quick, thorough, claim)


def readers(flavour, quick, thorough):
    return Suite("readers", "ReadersGen", "ReadersTrace", flavour, quick, thorough)


def structured(flavour, quick, thorough, claim):
    return Suite("structured", "ProfilerGen", "ProfilerTrace", flavour, quick, thorough, claim)


BULKMC = MC("BulkMC", {"MaxRuns": 2, "MaxCount": 2}, {"MaxRuns": 3, "MaxCount": 3},
            invariants=("Same", "SameOrder", "SameRows"))


def bulk(quick, thorough, claim):
    return Suite("bulk", "BulkGen", "BulkTrace", "bulk", quick, thorough, claim)


LABELINV = ("Entities", "WholeWords", "Counts", "Cells", "Marks", "Shares", "Batching", "OneLabel", "Similar")
LABELMC = MC("LabelsMC", {"MaxLen": 4, "MaxTexts": 0}, {"MaxLen": 6, "MaxTexts": 0}, invariants=LABELINV)
LABELSMC = MC("LabelsMC", {"MaxLen": 1, "MaxTexts": 3}, {"MaxLen": 2, "MaxTexts": 2}, invariants=LABELINV)


def labels(flavour, quick, thorough):
    return Suite("labels", "LabelsGen", "LabelsTrace", flavour, quick, thorough, lambda f: f.fresh)


def of(*clauses, ops=None, via=None, fresh=True):
    """Failures of the given clauses (after the given operations, on profiles
    with the given history), first seen at that step."""
    cs = set().union(*[c if isinstance(c, (set, frozenset)) else {c} for c in clauses])

    def claim(f):
        return (f.clause in cs and (ops is None or f.op in ops)
                and (via is None or via(f.via)) and (not fresh or f.fresh))
    return claim


PROPS = {
    "C01": Prop([structured("stream", (150, 7), (3000, 9), of(VALUES, "accept")),
                 structured("moments", (150, 7), (2500, 9), of(VALUES, "accept")),
                 bulk((60, 5), (800, 7), of(VALUES, "accept"))],
                [BULKMC, COLMC]),
    "C02": Prop([structured("merge", (300, 8), (4000, 10), of(VALUES, "accept", ops={"merge", "update"}, via=lambda v: "M" in v)),
                 bulk((60, 5), (800, 7), of(VALUES, "accept", via=lambda v: "M" in v))],
                [BULKMC, COLMC, profmc()]),
    "C03": Prop([structured("alias", (300, 8), (4000, 10), of("interference", "reject.inert"))], [profmc()]),
    "C04": Prop([structured("pickle", (300, 8), (4000, 10), of(VALUES, "accept", "roundtrip", via=lambda v: "P" in v)),
                 structured("sample", (100, 7), (1000, 9), of(VALUES, SAMPLING, "accept", via=lambda v: "P" in v)),
                 structured("fill", (100, 7), (1000, 9), of(VALUES, SAMPLING, "accept", via=lambda v: "P" in v)),
                 bulk((40, 5), (400, 7), of(VALUES, "accept", "roundtrip", via=lambda v: "P" in v))], [profmc()]),
    "C05": Prop([structured("json", (300, 8), (4000, 10), of(VALUES, "accept", "roundtrip", via=lambda v: "J" in v)),
                 structured("sample", (100, 7), (1000, 9), of(VALUES, SAMPLING, "accept", via=lambda v: "J" in v)),
                 structured("fill", (100, 7), (1000, 9), of(VALUES, SAMPLING, "accept", via=lambda v: "J" in v)),
                 bulk((40, 5), (400, 7), of(VALUES, "accept", "roundtrip", via=lambda v: "J" in v))], [profmc()]),
    "C06": Prop([structured("null", (300, 8), (4000, 10), of(NULLS, "repr", "hasnull", "isnull", "accept")),
                 bulk((60, 5), (800, 7), of(NULLS, "hasnull", "isnull", "accept"))], [BULKMC, COLMC]),
    "C07": Prop([structured("rows", (350, 8), (4000, 10), of(ROWS, "accept")),
                 bulk((60, 5), (800, 7), of(ROWS, "accept"))], [profmc()]),
    "C08": Prop([structured("schema", (350, 8), (4000, 10), of(VALUES, "accept", "reject", "reject.inert"))], [profmc()]),
    "C09": Prop([structured("type", (350, 8), (4000, 10), of(TYPES, "accept")),
                 bulk((60, 5), (800, 7), of(TYPES, "accept"))], [BULKMC, COLMC]),
    "C10": Prop([structured("cats", (350, 8), (4000, 10), of(CATS, "accept", "roundtrip")),
                 bulk((50, 5), (600, 7), of(CATS, "accept"))], [BULKMC, COLMC]),
    "C11": Prop([structured("hist", (110, 5), (1500, 7), of(HIST, "accept")),
                 structured("moments", (100, 6), (1500, 8), of(HIST, "accept")),
                 bulk((50, 5), (600, 7), of(HIST, "accept"))], [BULKMC, COLMC]),
    "C12": Prop([structured("corr", (150, 7), (2000, 9), of(PAIRS, "accept", "roundtrip")),
                 structured("relate", (200, 7), (2500, 9), of(PAIRS, "accept", "roundtrip"))]),
    "C13": Prop([structured("order", (350, 8), (4000, 10), of(ORDER, "accept"))], [ORDERMC]),
    "C14": Prop([utext("text", (1500, 9), (9000, 12), of(UTEXT, "accept", "reject", "roundtrip", "interference"))], [UTEXTMC]),
    "C15": Prop([structured("diff", (350, 8), (4000, 10), AnyOf("diff.", "accept", "interference")),
                 utext("textdiff", (600, 9), (4000, 12), AnyOf("diff.", "accept", "interference"))]),
    "C16": Prop([readers("read", (1300, 6), (9000, 9))],
                [MC("ReadersMC", {"MaxCell": 2, "Big": 0}, {"MaxCell": 2, "Big": 1}, invariants=("Recover", "Whole"))]),
    "C17": Prop([readers("detect", (1100, 6), (8000, 9))]),
    "C18": Prop([structured("views", (320, 8), (4000, 10), AnyOf("view.", "accept", "interference")),
                 utext("textview", (600, 9), (4000, 12), AnyOf("view.", "accept", "interference"))]),
    "C19": Prop([structured("options", (330, 7), (4500, 9), of(VALUES, PAIRS, "accept", "reject", "reject.inert", "roundtrip"))], [profmc()]),
    "C20": Prop([structured("sample", (220, 7), (3500, 9), of(VALUES, SAMPLING, "accept")),
                 structured("fill", (250, 7), (3500, 9), of(VALUES, SAMPLING, "accept")),
                 utext("textsample", (500, 9), (4000, 12), of(UTEXT, SAMPLING, "accept"))], [profmc()]),
    "C21": Prop([structured("forms", (350, 7), (4500, 9), of(VALUES, "accept"))]),
    "C22": Prop([labels("label", (1500, 8), (12000, 12))], [LABELMC]),
    "C23": Prop([labels("labelcol", (350, 8), (3500, 10)), labels("labeltext", (700, 8), (6000, 10))], [LABELSMC]),
}
