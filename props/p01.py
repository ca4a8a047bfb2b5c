"""P01: threads of one parallel region never conflict."""
from sgv import ir, omp
from sgv.report import Check

RULE = ("Every OpenMP region of every module is lowered with its pragmas enabled (all levels; levels 2-4; level 6 alone). "
        "A dataflow analysis classifies each address as thread-private, an injective function of the iteration, owned by the iteration, or "
        "shared, follows calls (direct and through resolved function pointers) out of the region, and rejects every store outside a critical "
        "section to a location two iterations can share, every read of an element another iteration writes, and every call of a "
        "non-reentrant library function.")


def run(tier):
    c = Check("P01", tier, RULE)
    seen = {}
    profs = [("main", "omp6"), ("main", "omp4"), ("main", "omp5"), ("alt", "omp6")]
    for which, prof in profs:
        P = ir.load(which, prof)
        R = omp.Races(P).run()
        for h, w in R.regions:
            k = (h, w)
            if k not in seen:
                seen[k] = 1
                c.count("parallel regions")
                c.sample("region in %s at %s" % (h, w), 8)
        c.count("memory accesses classified", R.obl)
        c.count("accesses through a mixed-radix iteration index (assumed disjoint)", R.assumed)
        for (h, f, what), (at, reg) in sorted(R.viol.items(), key=lambda x: x[1]):
            fn = f.split(".omp_outlined")[0]
            key = what if what.startswith("writes global") else "%s|%s" % (fn, what)
            if key in c.keys():
                continue
            c.violation(key, at, "%s %s inside the parallel region at %s" % (fn, what, reg))
    c.floor("parallel regions", 40)
    c.assume += ["an address that is an injective function of the loop index stays inside its array element",
                 "external libraries other than the listed ones are thread safe for distinct arguments"]
    return c
