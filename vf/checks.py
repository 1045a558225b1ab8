"""What is run for each property."""
from . import big, directed, hostprofiles, profiles, replay as rp

TRUSTED = ["TLC", "Gumbo turns HTML text into the tree that the driver reports",
           "Boost.Regex inside of the constructs that the specification leaves open", "the compiler and the C++ standard library"]


def profile(ctx, quick, thorough, fn=None, name=None, variant="plain", env=None, timeout=60, hosts=None):
    """Random scenarios of a property; `thorough` in batches with seeds of their own."""
    name = name or ctx.prop.lower()
    fn = fn or getattr(hostprofiles if hosts else profiles, name)
    if not ctx.thorough:
        ctx.episodes(name, list(fn(ctx.rng(name), quick)), variant, env, timeout, hosts=hosts)
        return
    k = 0
    while thorough > 0 and len(ctx.violations) < 5:
        ctx.episodes("%s/%d" % (name, k), list(fn(ctx.rng("%s/%d" % (name, k)), min(thorough, 1500))), variant, env, timeout, hosts=hosts)
        thorough -= 1500
        k += 1


HOSTS = {"C18": "cli", "C19": "cli", "C20": "bindings"}


def fixed(ctx):
    ctx.episodes("directed", directed.episodes(ctx.prop))


def large(ctx):
    """Long lists, deep trees, long values, ..."""
    n = 8
    for k in range(12 if ctx.thorough else 1):
        ctx.episodes("large/%d" % k, big.episodes(ctx.prop, ctx.rng("large/%d" % k), n), hosts=HOSTS.get(ctx.prop))


def c01(ctx):
    fixed(ctx)
    profile(ctx, 1500, 30000)
    rp.matching(ctx, "GenMatching6.cfg" if ctx.thorough else "GenMatching.cfg")
    ctx.model("MCMatching", "MCMatching5.cfg" if ctx.thorough else "MCMatching.cfg")


def c02(ctx):
    c01(ctx)
    rp.tree(ctx, "GenTree6.cfg" if ctx.thorough else "GenTree.cfg")


c03 = c01


def c04(ctx):
    fixed(ctx)
    profile(ctx, 1200, 30000)
    rp.tree(ctx, "GenTree6.cfg" if ctx.thorough else "GenTree.cfg")
    ctx.model("MCTree", "MCTree5.cfg" if ctx.thorough else "MCTree.cfg")


def simple(quick, thorough, *gens):
    """Random scenarios, and small cases enumerated by TLC."""
    def f(ctx):
        fixed(ctx)
        profile(ctx, quick, thorough)
        for m in gens:
            rp.cases(ctx, m, m + ("Big.cfg" if ctx.thorough else ".cfg"))
        if ctx.prop == "C13":
            rp.structure(ctx, "GenStructure6.cfg" if ctx.thorough else "GenStructure.cfg")
    return f


def c09(ctx):
    fixed(ctx)
    profile(ctx, 1200, 30000)
    rp.tree(ctx, "GenTree.cfg", mode=1)


def c12(ctx):
    fixed(ctx)
    profile(ctx, 2000, 40000)
    rp.tour(ctx, "GenParser4.cfg" if ctx.thorough else "GenParser.cfg")
    rp.structure(ctx, "GenStructure6.cfg" if ctx.thorough else "GenStructure.cfg")


def c14(ctx):
    fixed(ctx)
    profile(ctx, 2000, 40000)
    rp.messages(ctx, ctx.rng("messages"), 12 if ctx.thorough else 1)
    rp.structure(ctx, "GenStructure6.cfg" if ctx.thorough else "GenStructure.cfg")


def c15(ctx):
    fixed(ctx)
    profile(ctx, 1000, 20000)
    rp.tree(ctx, "GenTree6.cfg" if ctx.thorough else "GenTree.cfg", limits=True)


def c16(ctx):
    fixed(ctx)
    profile(ctx, 900, 20000)
    # threads, in the ordinary build and under the race detector
    profile(ctx, 250, 6000, name="c16_threads")
    profile(ctx, 60, 2000, name="c16_threads/tsan", fn=profiles.c16_threads, variant="tsan")


def c17(ctx):
    fixed(ctx)
    profile(ctx, 1500, 30000)
    rp.histories(ctx)
    rp.structure(ctx, "GenStructure6.cfg" if ctx.thorough else "GenStructure.cfg", copies=True)
    # copies that share or lose memory
    profile(ctx, 300, 6000, name="c17/asan", fn=profiles.c17, variant="asan")


def c18(ctx):
    profile(ctx, 1000, 15000, hosts="cli")
    if ctx.thorough:
        rp.cli(ctx, "GenCli4.cfg", ctx.rng("lines"))


def c19(ctx):
    profile(ctx, 1200, 25000, hosts="cli")
    rp.cli(ctx, "GenCli4.cfg" if ctx.thorough else "GenCli.cfg", ctx.rng("lines"))
    if ctx.thorough:
        ctx.model("MCCli")


def c20(ctx):
    profile(ctx, 1200, 25000, hosts="bindings")


CHECKS = {"C18": c18, "C19": c19, "C20": c20, "C01": c01, "C02": c02, "C03": c03, "C04": c04, "C09": c09, "C12": c12, "C14": c14, "C15": c15}
CHECKS.update(C16=c16, C17=c17)
for p, q, t, gens in (("C05", 1000, 30000, ["GenTraits"]), ("C06", 1500, 40000, ["GenTests"]), ("C07", 1200, 30000, ["GenRegex"]),
                      ("C08", 1200, 30000, ["GenPipes"]), ("C10", 1500, 40000, ["GenNodes"]), ("C11", 1500, 40000, ["GenNodes"]),
                      ("C13", 1000, 30000, ["GenTemplates"])):
    CHECKS[p] = simple(q, t, *gens)


def with_large(f):
    def g(ctx):
        f(ctx)
        large(ctx)
    return g


MODELS = {"C07": "MCRegex", "C15": "MCExtraction", "C16": "MCExtraction", "C18": "MCJson", "C20": "MCJson"}


def with_model(p, f):
    def g(ctx):
        f(ctx)
        ctx.model(MODELS[p])
    return g


CHECKS = {p: with_large(f) for p, f in CHECKS.items()}
CHECKS.update({p: with_model(p, CHECKS[p]) for p in MODELS})


def replay(ctx, data):
    raise SystemExit("unknown kind of replay file: %s" % data["kind"])
