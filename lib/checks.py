"""The checks: which specification, scenarios, harness and trace module decide
each property.  See DESIGN.md."""
import concurrent.futures as cf
import json, os, re, shutil, subprocess, sys, time
import runner
from runner import CheckError, VERIF

KNOWN = os.path.join(VERIF, "known_findings.json")


def flatten(v):
    if isinstance(v, bool):
        return ["1" if v else "0"]
    if isinstance(v, list):
        r = [str(len(v))]
        for x in v:
            r += flatten(x)
        return r
    return [str(v)]


def scenarios(out, keep_head=True):
    """The behaviours a design run printed, one flat line each."""
    seen, lines = set(), []
    for m in re.finditer(r'^"@@(.*)"$', out, re.M):
        v = json.loads(json.loads('"' + m.group(1) + '"'))
        line = " ".join(flatten(v)[1:])
        if line not in seen:
            seen.add(line)
            lines.append(line)
    return lines


class Design:
    """An exhaustive TLC run on the specification itself."""
    def __init__(self, module, cfg=None, thorough=None, emits=False, workers=4, timeout=800, extra=(), quick=True):
        self.module, self.cfg = module, cfg or module + ".cfg"
        self.thorough = thorough          # another cfg for the thorough tier
        self.emits, self.workers, self.timeout, self.extra, self.quick = emits, workers, timeout, extra, quick


class Part:
    """One binding to the code: designs, a harness part, a trace specification."""
    def __init__(self, name, harness, trace, designs=(), lib=(), pieces=3, htimeout=300, cfg=None, env=None):
        self.name, self.harness, self.trace, self.designs = name, harness, trace, designs
        self.lib, self.pieces, self.htimeout = lib, pieces, htimeout
        self.cfg, self.env = cfg or trace + ".cfg", env or {}


ELL = ("ell.cpp", "ell_stable.cpp", "ell1d.cpp")
ORACLES = ("ldlt_ext.cpp", "lmi_oracle.cpp", "lmi_old_oracle.cpp", "lmi0_oracle.cpp", "qmi_oracle.cpp",
           "lowpass_oracle.cpp", "profit_oracle.cpp")

CHECKS = {}


def check(pid, *parts):
    CHECKS[pid] = parts


for pid, m in (("C01", "feas"), ("C02", "dc"), ("C03", "q")):
    check(pid, Part(m, "drivers.cpp", "CuttingPlaneTrace",
                    [Design("MCCuttingPlane", "MCCuttingPlane_%s.cfg" % m,
                            thorough="MCCuttingPlane_%s_t.cfg" % m, emits=True)]))


# ------------------------------------------------------------------- running
def known_for(pid):
    data = json.load(open(KNOWN))
    return {f["id"]: f for f in data["findings"] if f["property"] == pid}


def run_design(d, tier, pid):
    cfg = d.thorough if tier == "thorough" and d.thorough else d.cfg
    t = runner.tlc(d.module, cfg, workers=d.workers, timeout=d.timeout if tier == "quick" else 3000,
                   extra=d.extra, env={"VERIF_TIER": tier})
    if not t.ok:
        raise CheckError("the specification itself fails (%s, %s):\n%s" % (d.module, cfg, t.out[-9000:]))
    return t


def run_part(pid, part, tier, seed):
    work = runner.new_work(part.name)
    with cf.ThreadPoolExecutor(8) as ex:
        exe = ex.submit(runner.build_harness, part.harness, part.lib)
        runner.classes()
        designs = list(ex.map(lambda d: run_design(d, tier, pid), [d for d in part.designs if d.quick or tier == "thorough"]))
        exe = exe.result()
    scn, lines = os.path.join(work, "scenarios.txt"), []
    for d, t in zip([d for d in part.designs if d.quick or tier == "thorough"], designs):
        if d.emits:
            got = scenarios(t.out)
            if not got:
                raise CheckError("no scenario came out of " + d.module)
            lines += got
    runner.put(scn, "\n".join(lines) + "\n")
    env = dict(part.env, KNOWN=KNOWN, PROPERTY=pid)

    def observe(tag):
        trace = os.path.join(work, "trace-%s.ndjson" % tag)
        rc, out = runner.run_harness(exe, [part.name, seed, tier, scn], trace,
                                     timeout=part.htimeout * (1 if tier == "quick" else 6))
        if not os.path.getsize(trace):
            raise CheckError("the harness recorded nothing: rc=%s %s" % (rc, out[-500:]))
        return trace, runner.validate(part.trace, part.cfg, trace, env=env,
                                      pieces=part.pieces if tier == "quick" else 8,
                                      timeout=800 if tier == "quick" else 3400)

    trace, (rej, st, tr, cases, dev) = observe("1")
    if rej:
        # a rejection is believed when a second recording is rejected as well
        _, (rej2, _, _, _, _) = observe("2")
        if not rej2:
            raise CheckError("a rejected trace was accepted when recorded again")
    samples = []
    with open(trace) as f:
        for k, line in enumerate(f):
            if k < 6:
                samples.append(line.strip()[:300])
    return dict(designs=designs, lines=len(lines), rejects=rej, states=st, transitions=tr, cases=cases,
                dev=dev, events=sum(1 for _ in open(trace)), samples=samples, name=part.name)


def replay_file(pid, part, rej):
    d = os.path.join(VERIF, "replay")
    os.makedirs(d, exist_ok=True)
    k = min(rej.index, len(rej.lines)) - 1
    b = k
    while b > 0 and not rej.lines[b].startswith('{"e":"Begin"'):
        b -= 1
    path = os.path.join(d, "%s-%s.ndjson" % (pid, part))
    with open(path, "w") as f:
        f.write("\n".join(rej.lines[b:k + 1]) + "\n")
    fails = re.findall(r'<<"FAILS", "([^"]+)", (\d+)', rej.tlc.out)
    return path, [n for n, at in fails if int(at) == rej.index], rej.lines[k][:400]


def run(pid, tier, seed):
    t0 = time.time()
    if pid not in CHECKS:
        raise CheckError("no such check: " + pid)
    parts = CHECKS[pid]
    with cf.ThreadPoolExecutor(4) as ex:
        res = list(ex.map(lambda p: run_part(pid, p, tier, seed), parts))
    violations = []
    known = known_for(pid)
    devs = {}
    for part, r in zip(parts, res):
        for rj in r["rejects"]:
            violations.append((part.name,) + replay_file(pid, part.name, rj))
        for k, n in r["dev"].items():
            devs[k] = devs.get(k, 0) + n
    cov = {
        "states": sum(t.distinct for r in res for t in r["designs"]) + sum(r["states"] for r in res),
        "transitions": sum(t.generated for r in res for t in r["designs"]) + sum(r["transitions"] for r in res),
        "traces_validated_against_impl": sum(r["cases"] for r in res),
        "samples": [{"part": r["name"], "first events of the recorded trace": r["samples"]} for r in res],
        "design_states": {r["name"]: [t.distinct for t in r["designs"]] for r in res},
        "scenarios_generated_by_tlc": {r["name"]: r["lines"] for r in res},
        "events_recorded": {r["name"]: r["events"] for r in res},
        "listed_deviations_seen": devs,
    }
    ev = {"property": pid, "tier": tier, "seed": seed, "level": "model_checking", "coverage": cov,
          "wall_s": round(time.time() - t0, 2), "violations": len(violations)}
    runner.put(os.path.join(VERIF, "evidence", pid + ".json"), json.dumps(ev, indent=1) + "\n")
    for k in sorted(devs):
        print("KNOWN-FINDING: property=%s %s: %s" % (pid, k, known[k]["what"] if k in known else ""))
    print("%s %s: %d behaviours of the code checked, %d events, %d+%d states, %.1f s" % (
        pid, tier, cov["traces_validated_against_impl"], sum(r["events"] for r in res),
        sum(t.distinct for r in res for t in r["designs"]), sum(r["states"] for r in res), time.time() - t0))
    for name, path, fails, line in violations:
        print("rejected (%s) at: %s" % (name, line))
        if fails:
            print("failed condition: %s" % ", ".join(fails))
        print("VIOLATION property=%s replay=%s" % (pid, path))
    return 1 if violations else 0


def setup():
    runner.classes()
    from itertools import chain
    hs = {(p.harness, p.lib) for ps in CHECKS.values() for p in ps}
    bad = 0
    for h, lib in sorted(hs):
        try:
            runner.build_harness(h, lib)
        except CheckError as e:
            print(h, e); bad = 1
    print("setup done" if not bad else "setup incomplete")
    return 0

DRV = ("All behaviours of the driver between an arbitrary oracle and space up to 3 (thorough: 4) oracle calls and "
       "limits 0-4 and above are enumerated by TLC and replayed into the real template with recording mocks; seeded "
       "histories up to 2000 calls besides. Trusts the mocks and TLC; does not bound behaviour beyond the lengths run.")
NOTES = {"C01": DRV, "C02": DRV, "C03": DRV}
NOT_CLAIMED = {}

check("C04", Part("bsearch", "bsearch.cpp", "BSearchTrace", [Design("MCBSearch", thorough="MCBSearch_t.cfg", emits=True)]))
check("C05", Part("adaptor", "adaptor.cpp", "AdaptorTrace",
                  [Design("MCAdaptor", thorough="MCAdaptor_t.cfg", emits=True), Design("MCAdaptor", "MCAdaptor_lim.cfg", emits=True)],
                  lib=ELL))
NOTES["C04"] = ("All small integer and dyadic brackets, thresholds, limits and tolerances enumerated by TLC (bracketing, halving, "
                "exactness, never stuck) and replayed into the real bsearch, plus seeded random brackets up to 2^32 wide and noisy predicates. "
                "Every question and the result are checked exactly; beyond those brackets it is sampled.")
NOTES["C05"] = ("All behaviours of the adaptor up to 2 tests of 2 inner questions (thorough: 3), with repeated levels and other uses of the oracle in between, replayed with two adaptors at work on one oracle into the real template over a "
                "recording mock space, plus seeded runs over the real ellipsoids whose shape is observed through refused cuts on copies.")

SLAB = Design("MCSlab", thorough="MCSlab_t.cfg")


def hist(m, **kw):
    return Design("MCEllipsoid", "MCEllipsoid_%s.cfg" % m, thorough="MCEllipsoid_%s_t.cfg" % m, emits=True, **kw)


check("C06", Part("single", "space.cpp", "EllipsoidTrace", [SLAB, hist("single")], lib=ELL))
check("C07", Part("pair", "space.cpp", "EllipsoidTrace", [SLAB, hist("pair")], lib=ELL, pieces=5))
check("C08", Part("equiv", "space.cpp", "EllipsoidTrace", [hist("single")], lib=ELL, pieces=5))
check("C09", Part("family", "space.cpp", "EllipsoidTrace", [hist("pair")], lib=ELL, pieces=5))
NOTES["C06"] = ("The optimum is derived in the specification as one slab problem and shown minimal on a grid of slabs, dimensions and "
                "alternatives; all 2-cut (thorough: 4-cut) histories of a menu of cuts are explored exactly and replayed, and seeded histories in "
                "dimensions 2-6 (8) and 12, one of 200 (600) cuts, sizes from 1e-30 to 1e30, are checked step by step in exact arithmetic to 1e-9, shapes being observed through refused cuts. ell only; "
                "cuts within 1e-5 of a threshold (but for those that touch it exactly) and directions almost conjugate to the shape are not generated.")
NOTES["C07"] = NOTES["C06"].replace("2-cut (thorough: 4-cut)", "2-cut (thorough: 3-cut)") + " Pairs that close to within 0.04 of the half-width are of the thin kinds: centred, symmetric or anywhere, down to 3e-5, and at last an equation."
NOTES["C08"] = ("The same histories given to ell, ell without deferred scale and ell_stable; each step of each is checked exactly and the three "
                "compared (in the first 60 steps; later rounding has its way). A cut that leaves one point is not posed to the factored form. ell_stable's listed defect is modelled exactly as a named deviation; any other difference is a violation.")
NOTES["C09"] = ("Families of up to 5 objects with cuts, copies and moves; after each operation the state of every object alive is observed and "
                "compared. Verdicts are exact on TLC's dyadic scripts, to 1e-9 elsewhere.")

check("C10", Part("interval", "interval.cpp", "Ell1dTrace", [Design("MCEll1d", thorough="MCEll1d_t.cfg", emits=True)], lib=ELL))
NOTES["C10"] = ("All histories of 2 (thorough: 3) cuts of a dyadic menu, with end points touched exactly, explored and replayed; seeded histories of up "
                "to 40 cuts, scales 1e-30 to 1e30, against the exact interval, to a rounding bound per step. Zero slopes and intervals of width 0 are not cut further.")

check("C11", Part("cycles", "network.cpp", "NegCycleTrace",
                  [Design("MCNegCycle", "MCNegCycle_2.cfg", emits=True), Design("MCNegCycle", "MCNegCycle_4.cfg", emits=True),
                   Design("MCNegCycle", "MCNegCycle_3.cfg", thorough="MCNegCycle_3_t.cfg", emits=True)], pieces=4))
check("C12", Part("ratio", "network.cpp", "ParametricTrace",
                  [Design("MCParametric", "MCParametric_2.cfg", emits=True), Design("MCParametric", "MCParametric_3.cfg", thorough="MCParametric_3t.cfg", emits=True),
                   Design("MCParametric", "MCParametric_s.cfg", emits=True)], pieces=4))
check("C13", Part("fraction", "fraction.cpp", "FractionTrace", [Design("MCFraction", thorough="MCFraction_t.cfg", emits=True)], pieces=6))
check("C14", Part("oracles", "netoracle.cpp", "NetOracleTrace",
                  [Design("MCNetOracle", "MCNetOracle_%s.cfg" % f, thorough="MCNetOracle_%s_t.cfg" % f, emits=True) for f in ("plain", "ratio", "scale")],
                  pieces=5))
NOTES["C11"] = ("All graphs on 2-4 nodes over lists of edge places with small weights, relaxed in every order by TLC, and replayed; seeded graphs up to 9 "
                "(14) nodes and some of 40, with loops, parallel edges and zero cycles, several searches per finder. int, dyadic double and Fraction weights, exact verdicts.")
NOTES["C12"] = ("All small graphs with costs and times, any negative cycle offered at each step, true and scripted candidates, limits 0-2; replayed. Seeded graphs "
                "up to 8 nodes, some of 30, with carried potentials. Exact for Fraction; a relative 1e-9 for double. Times are positive.")
NOTES["C13"] = ("All scripts of 2 operations out of 30 from a menu of starts, against pairs reduced by an explicit gcd, replayed on int, long and long long; "
                "seeded scripts up to 30 (60) operations with values up to 1e10. Denominator 0 and overflowing operands are not generated.")
NOTES["C14"] = ("Small networks in the three forms with every cycle's cut and histories of 2-3 queries enumerated and replayed; seeded networks up to 6 (9) nodes and some of 16, values hardly better than the best so far, "
                "potentials stirred between queries. Points are dyadic, so acceptance is exact; a cut is tried on up to 60 points, many pressed against the boundary.")
check("C15", Part("ldlt", "ldlt.cpp", "LdltTrace",
                  [Design("MCLdlt", "MCLdlt_2.cfg", emits=True), Design("MCLdlt", "MCLdlt_3.cfg", thorough="MCLdlt_3t.cfg", emits=True),
                   Design("MCLdlt", "MCLdlt_4t.cfg", emits=True, quick=False)], lib=ORACLES, pieces=4))
NOTES["C15"] = ("All 2x2 and 3x3 (thorough: larger menus, 4x4) symmetric matrices over small integer menus are factored in the specification, with and without "
                "semidefinite matrices allowed, and replayed, several on one object; seeded matrices up to 7x7 (9x9), some 20x20, scales 2^-90 to 2^90, of known or random factors. Verdicts are demanded where the "
                "pivots are exact or above a relative 1e-6; witnesses and roots to 1e-8.")
check("C16", Part("lmi", "matrices.cpp", "LmiTrace",
                  [Design("MCLmi", "MCLmi_2.cfg", thorough="MCLmi_2t.cfg", emits=True), Design("MCLmi", "MCLmi_3.cfg", thorough="MCLmi_3t.cfg", emits=True)],
                  lib=ORACLES, pieces=5))
check("C17", Part("qmi", "matrices.cpp", "LmiTrace",
                  [Design("MCLmi", "MCLmi_q%s.cfg" % s, thorough="MCLmi_q%st.cfg" % s, emits=True, workers=2) for s in ("12", "21", "22", "32")],
                  lib=ORACLES, pieces=5))
NOTES["C16"] = ("Every point of a grid and every pair of small coefficient matrices is explored: the factored matrix, its witness and the cut, tried on a grid of points; a sample of "
                "the problems is replayed in full on the three oracles. Seeded problems up to 4 variables and 4x4 (6x6), some up to 10 variables and 8x8. Each cut is tried on points the specification finds acceptable, "
                "many of them pressed towards the cut; each answer is compared with a new oracle's, with the variants' and with earlier ones.")
NOTES["C17"] = NOTES["C16"].replace("on the three oracles", "with levels changed or kept between queries").replace("4x4 (6x6)", "5x4 (5x6), rectangular and unsymmetric")
check("C18", Part("filter", "filter.cpp", "LowpassTrace", [Design("MCLowpass", thorough="MCLowpass_t.cfg", emits=True)],
                  lib=ELL + ORACLES, pieces=4))
NOTES["C18"] = ("Small bands of integer rows, every history of 2 (thorough: 3) points of a grid and of best values, with the searches starting wherever they were left: explored and "
                "replayed, exactly. Seeded cosine grids up to 7 (12) coefficients and 24 (60) frequencies (one of 20 and 80), asked by real runs with and without parallel cuts and by arbitrary "
                "histories. Each answer must be a constraint the point violates, or improve at a point that meets them all; the stopband is not empty.")
check("C19", Part("profit", "profit.cpp", "ProfitTrace",
                  [Design("MCProfit", thorough="MCProfit_t.cfg", emits=True), Design("MCProfit", "MCProfit_q.cfg", thorough="MCProfit_qt.cfg", emits=True)],
                  lib=ELL + ORACLES, pieces=5))
NOTES["C19"] = ("Three data sets with boxes, every history of 2 questions (discrete: 1, thorough: 2 with retries) over a grid, with exponentials and logarithms to 60 digits: explored, "
                "and a sample replayed. Seeded data, real runs and arbitrary histories; each cut is tried on better points pressed against it (all better integer points "
                "up to 60 for the discrete form). Best values from 0 up; the listed finding on the discrete cut's offset is modelled exactly.")
check("C20", Part("csd", "csd.cpp", "CsdTrace", [Design("MCCsd", thorough="MCCsd_t.cfg", emits=True)], lib=("csd.cpp",), pieces=4))
NOTES["C20"] = ("Every k/2^m of a range with every place count and digit limit is recoded digit by digit in the specification and replayed (thorough: up to 200/64, 8 "
                "places, 6 digits); on short strings the judges are shown to force the digits. Seeded numbers from 2^-900 to 2^900, many next to (2/3)2^n and to powers of two, "
                "are judged exactly; up to about 1000 digits. Negative place counts and strings with several points are not asked.")

check("C23", Part("containers", "containers.cpp", "ContainersTrace",
                  [Design("MCContainers", "MCContainers_set.cfg", thorough="MCContainers_sett.cfg", emits=True),
                   Design("MCContainers", "MCContainers_map.cfg", thorough="MCContainers_mapt.cfg", emits=True)], lib=(), pieces=8))
NOTES["C23"] = ("Every history of 3 operations (thorough: 4) on two sets and on two dictionaries over two keys is explored and replayed with integer and string keys, and all four registers are "
                "looked at after every step; seeded histories of up to 60 operations over up to 40 keys; every range with ends in -6..6 (thorough: -9..9) in four integer types. "
                "A container that was moved from is not asked anything until it is made anew.")

check("C24", Part("views", "graphview.cpp", "GraphViewTrace",
                  [Design("MCGraphView", "MCGraphView_md.cfg", thorough="MCGraphView_md_t.cfg", emits=True),
                   Design("MCGraphView", "MCGraphView_mu.cfg", thorough="MCGraphView_mu_t.cfg", emits=True)], lib=(), pieces=4),
      Part("simple", "xngraph.cpp", "GraphViewTrace",
           [Design("MCGraphView", "MCGraphView_sd.cfg", thorough="MCGraphView_sd_t.cfg", emits=True),
            Design("MCGraphView", "MCGraphView_su.cfg", thorough="MCGraphView_su_t.cfg", emits=True)], lib=(), pieces=4))
NOTES["C24"] = ("Every history of 4 operations (simple graphs: 5; thorough: one more) on two graphs over two vertices is explored and replayed on five adaptor types and four simple graph types, and "
                "everything both registers show is compared after every step, through views opened early as well; seeded histories of up to 40 operations on up to 9 vertices. "
                "A graph that was moved from is not asked anything until it is made anew; vertices that do not exist are not asked about.")

check("C21", Part("system", "system.cpp", "SystemTrace",
                  [Design("MCSystem"), Design("MCProblems", thorough="MCProblems_t.cfg", emits=True)],
                  lib=ELL, pieces=8))
NOTES["C21"] = ("A composition of driver, oracle and space over any oracle answers and any sound shrinking is explored in full (about 230k states). All plane problems of a family of half-plane, slab "
                "and box constraints (thorough: 962k judged events) and seeded problems in 1-5 dimensions are solved by each driver and space; after every step exact candidate points are held "
                "against the space. Cuts that touch an edge exactly (g = 0, zero-width slabs) are not posed.")

check("C22", Part("fit", "fit.cpp", "FitTrace",
                  [Design("MCFit", "MCFit_2.cfg", thorough="MCFit_2t.cfg", emits=True), Design("MCFit", "MCFit_3.cfg", thorough="MCFit_3t.cfg", emits=True)],
                  lib=("lsq_corr_ell.cpp", "ell.cpp") + ORACLES, pieces=8))
NOTES["C22"] = ("Small problems on lines and in the plane, every point of a grid, histories of 2 questions to both oracles are explored, and each problem is solved by the fits. Seeded problems with "
                "2-5 sites (some 7-10), degrees 2-4: the result is held against points of an independent search and its neighbours, exactly but for logarithms to 50 digits; what is better must be so by "
                "3e-4 with 3e-4 of room. The unconstrained fit is compared only where its moving search space cannot lose a point; distinct sites.")

check("C25", Part("posy", "posy.cpp", "PosyTrace",
                  [Design("MCPosy", "MCPosy_mono.cfg", thorough="MCPosy_monot.cfg", emits=True),
                   Design("MCPosy", "MCPosy_posy.cfg", thorough="MCPosy_posyt.cfg", emits=True)], lib=(), pieces=8))
NOTES["C25"] = ("Every history of 2 operations (thorough: 3) on two monomials and two posynomials in two variables is explored; an operation on the terms is shown to be the operation on the "
                "functions at exact points, and the tangents to lie below. All are replayed, in place and with new objects, as are seeded histories of up to 16 (40) operations in 1-4 variables; all four "
                "registers are asked for values and gradients in every way, compared with 50-digit logarithms. Sizes are kept where nothing overflows.")

check("C26", Part("classic", "classic.cpp", "ClassicTrace", [Design("MCClassic", thorough="MCClassic_t.cfg", emits=True)], lib=(), pieces=8))
NOTES["C26"] = ("Every behaviour of the three searches up to limit 3 (thorough: 4) over any answers and verdicts is explored and replayed; seeded scripts up to limit 40 with moves at and around the tolerance. "
                "Seeded cuts of the real ellipsoid in 2-4 (6) dimensions, of any depth, its shape measured through refused cuts on copies; seeded geometric programs solved with it. At last a cut "
                "that leaves next to nothing, down to 1e-5 of the half-width; one dimension is not (the method divides by n - 1).")

check("C27", Part("solve", "solve.cpp", "SolveTrace",
                  [Design("MCSolve", f"MCSolve_{f}.cfg", thorough=f"MCSolve_{f}t.cfg", emits=True) for f in ("ratio", "scale", "matrix", "profit", "filter")],
                  lib=ELL + ORACLES, pieces=8))
NOTES["C27"] = ("Searches of all small problems of a family (networks of 2-3 nodes, 2x2 matrix problems, profits, filters of two taps) over a grid are explored, any point being asked about next; each problem is then solved by the code. "
                "Seeded problems: networks of up to 14 nodes, 1-5 variables, regions of radius 0.7 to 450, initial values near the optimum, two tolerances, the ellipsoid's options. Every question and cut is judged exactly, the result "
                "against points that a random search found; the profit's discrete form is left out (known finding in C19).")
