#!/usr/bin/env python3
"""check.py <property> [--tier quick|thorough] [--seed n]"""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vf import *

CHECKS = {}


def check(f):
    CHECKS[f.__name__] = f
    return f


def store_gen(run):
    """Every transition of the compressed model, as call sequences."""
    shapes = [((2, 2), "{0, 1, 2}"), ((2, 3), "{0, 1}"), ((3, 2), "{0, 1}"), ((1, 4), "{0, 1, 2}"), ((4, 1), "{0, 1, 2}")]
    if run.thorough:
        shapes = [((2, 3), "{0, 1, 2}"), ((3, 2), "{0, 1, 2}"), ((3, 3), "{0, 1}"), ((1, 5), "{0, 1, 2}"), ((5, 1), "{0, 1, 2}"), ((2, 2), "{0, 1, 2}")]
    progs = []

    def one(shape, vals):
        tr = run.generate("CompressedGen", consts={"Major": shape[0], "Minor": shape[1], "Vals": vals})
        return tours(tr, shape)

    with concurrent.futures.ThreadPoolExecutor(5) as ex:
        for p in ex.map(lambda s: one(*s), shapes):
            progs += p
    return progs


def compressed_models(run):
    run.model("Compressed", consts={"Major": 2, "Minor": 3, "Vals": "{0, 1}"})
    if run.thorough:
        run.model("Compressed", consts={"Major": 2, "Minor": 2, "Vals": "{0, 1, 2}"})
        run.model("Compressed", consts={"Major": 3, "Minor": 3, "Vals": "{0, 1}"})
        run.model("Compressed", consts={"Major": 1, "Minor": 5, "Vals": "{0, 1, 2}"})


def store_check(run):
    def conf():
        g = store_gen(run)
        t = run.drive(run.prop.lower(), gen=g)
        run.validate(t, "TraceStore")
    parallel(lambda: compressed_models(run), conf)


@check
def C01(run):
    store_check(run)


@check
def C02(run):
    store_check(run)


@check
def C03(run):
    store_check(run)


FRESH = {"add": [".Add"], "sub": [".Subtract"], "mul": [".Multiply"], "neg": [".Negative"], "trans": [".Transpose", "ToCSR", "ToCSC", "TT"], "scal": ["Scalar", ".Scalar"]}
V3 = [-1, 0, 1]
V2 = [0, 1]
U3 = [0, 1, 2]


def J(ops, fam, r, c, k, vals, olds, masks, aliases=("",)):
    return {"aliases": list(aliases), "ops": ops, "fam": fam, "r": r, "c": c, "k": k, "vals": vals, "olds": olds, "masks": masks}


def step_models(run, jobs, bad=()):
    """OpSteps on the families of a property; bad: configurations that have to fail (the model can tell)"""
    for consts in jobs:
        run.model("OpSteps", consts=consts)
    for consts in bad:
        rc, out, st, dt = run.tlc("OpSteps", "OpSteps.cfg", 4, consts=consts)
        if "is violated" not in out:
            raise CheckError("OpSteps accepts operations without operand copies: " + out[-2000:])
        run.extra.setdefault("models_that_have_to_fail", []).append(dict(consts, module="OpSteps"))


def ops_check(run, gens, models, bad=()):
    def conf():
        g = run.generate("OpsGen", jobs=gens)
        t = run.drive(run.prop.lower(), gen=g)
        run.validate(t, "TraceOps")
    parallel(conf, lambda: step_models(run, models, bad))


HOWS = ["copyl", "copy", "row", "col", "arr", "t", "neg", "scal", "gscal", "add", "sub", "mul", "tocsr", "tocsc", "strassen", "rref", "sortr", "sortc",
        "redvec", "bfs", "mxcopy", "mxrow", "mxcol", "mxarr", "mxt", "mxneg", "mxscal", "mxadd", "mxsub", "mxmul",
        "iAdd", "iSub", "iMxM", "iEwAdd", "iEwMul", "iApply", "iNeg", "iTrans", "iMxV", "iVxM", "iEwAddV", "iEwMulV"]


@check
def C04(run):
    def tla_set(l):
        return "{" + ", ".join('"%s"' % x for x in l) + "}"

    def conf():
        g = run.generate("HeapGen", consts={"How": tla_set(HOWS), "Emit": "TRUE", "MaxLen": 4})
        long = run.generate("HeapGen", consts={"How": tla_set(HOWS if run.thorough else ["copyl", "row", "col", "t", "neg", "iAdd"]), "Emit": "TRUE", "MaxLen": 5})
        if run.thorough:   # 1.8 million histories: every thirtieth, which ones depends on the seed
            long = long[run.seed % 30::30]
        g += long
        t = run.drive("c04", gen=g)
        run.validate(t, "TraceHeap")

    def ops():
        t = run.drive("c04ops")
        run.validate(t, "TraceFrame")

    def models():
        run.model("HeapGen", consts={"MaxLen": 6 if run.thorough else 5})
        rc, out, st, dt = run.tlc("HeapGen", "HeapGen.cfg", 2, consts={"Sharing": "TRUE"})
        if "Independent is violated" not in out:
            raise CheckError("HeapGen cannot tell shared storage: " + tail(out))
        run.extra.setdefault("models_that_have_to_fail", []).append({"module": "HeapGen", "Sharing": "TRUE"})
    parallel(conf, ops, models)


@check
def C05(run):
    def conf():
        big = run.thorough
        g = run.generate("Equality", consts={"EmitPairs": "TRUE", "ShapeSet": "{22, 14, 41, 32}" if big else "{22, 31, 13, 12}", "Vals": "{0, 1}", "ModelKinds": '{"csr"}'})
        g += run.generate("Equality", consts={"EmitPairs": "TRUE", "ShapeSet": "{31, 12, 13}" if big else "{21, 12}", "Vals": "{0, 1, 2}", "ModelKinds": '{"csr"}'})
        t = run.drive("c05", gen=g)
        run.validate(t, "TraceEq")

    def models():
        run.model("Equality", consts={"ShapeSet": "{22, 31, 13}"})
        if run.thorough:
            run.model("Equality", consts={"ShapeSet": "{22, 14, 41}", "Vals": "{0, 1, 2}"})
    parallel(conf, models)


@check
def C06(run):
    gens = []
    for fam, into in (("add", ["Add"]), ("sub", ["Subtract"])):
        gens += [J(into, fam, 1, 2, 1, V3, [0, 3], V2), J(into, fam, 2, 1, 1, V3, [3], V2), J(into, fam, 2, 2, 1, V2, [3], [0]),
                 J(FRESH[fam], fam, 2, 2, 1, V2, [0], [0])]
        if run.thorough:
            gens += [J(into, fam, 2, 2, 1, V2, [3], V2), J(into, fam, 3, 1, 1, V3, [3], V2), J(FRESH[fam], fam, 2, 2, 1, V3, [0], [0])]
    models = [{"Fams": '{"add", "sub"}', "Vals": "<- Signed"}]
    if run.thorough:
        models += [{"Fams": '{"%s"}' % f, "R": 2, "C": 2, "Vals": "{0, 1}", "Olds": "{9}"} for f in ("add", "sub")]
    ops_check(run, gens, models, [{"Fams": '{"add"}', "Vals": "<- Signed", "Copying": "FALSE"}])


@check
def C07(run):
    gens = [J(["MxM"], "mul", 2, 2, 2, V2, [3], [0]), J(["MxM"], "mul", 1, 2, 2, V2, [3], V2), J(["MxM"], "mul", 2, 1, 2, V3, [3], V2),
            J(["MxV", "VxM"], "mul", 2, 2, 1, V2, [3], V2), J(FRESH["mul"], "mul", 2, 2, 1, V3, [0], [0]), J(FRESH["mul"], "mul", 1, 2, 2, V3, [0], [0])]
    models = [{"Fams": '{"mul"}', "R": 2, "C": 2, "Vals": "{0, 1}", "Olds": "{9}"}]
    if run.thorough:
        gens += [J(["MxM"], "mul", 2, 2, 2, V2, [3], V2), J(["MxM"], "mul", 1, 3, 2, V2, [3], V2), J(["MxV", "VxM"], "mul", 2, 3, 1, V2, [3], V2),
                 J(["MxV", "VxM"], "mul", 2, 2, 1, U3, [3], V2), J(FRESH["mul"], "mul", 2, 2, 2, V2, [0], [0])]
        models += [{"Fams": '{"mul"}', "R": 1, "C": 1, "Vals": "{0, 1, 2, 3}", "Olds": "{0, 9}"}]
    ops_check(run, gens, models, [{"Fams": '{"mul"}', "R": 2, "C": 2, "Vals": "{0, 1}", "Olds": "{9}", "Copying": "FALSE"}])


@check
def C08(run):
    gens = []
    for fam, m, v in (("union", "EwAddM", "EwAddV"), ("inter", "EwMulM", "EwMulV")):
        gens += [J([m], fam, 1, 2, 1, U3, [0, 3], V2), J([v], fam, 2, 1, 1, U3, [0, 3], V2), J([m], fam, 2, 2, 1, V2, [3], [0])]
        if run.thorough:
            gens += [J([m], fam, 2, 2, 1, V2, [3], V2), J([v], fam, 3, 1, 1, U3, [3], V2)]
    models = [{"Fams": '{"union", "inter"}'}]
    if run.thorough:
        models += [{"Fams": '{"%s"}' % f, "R": 2, "C": 2, "Vals": "{0, 1}", "Olds": "{9}"} for f in ("union", "inter")]
    ops_check(run, gens, models)


@check
def C09(run):
    gens = []
    for fam, into in (("apply", ["Apply"]), ("neg", ["Negative"]), ("trans", ["Transpose"])):
        gens += [J(into, fam, 1, 2, 1, U3, [0, 3], V2), J(into, fam, 2, 1, 1, U3, [0, 3], V2), J(into, fam, 2, 2, 1, V2, [3], V2)]
        if fam in FRESH:
            gens += [J(FRESH[fam], fam, 2, 2, 1, U3, [0], [0]), J(FRESH[fam], fam, 2, 3, 1, V2, [0], [0]), J(FRESH[fam], fam, 3, 1, 1, V3, [0], [0])]
        if run.thorough:
            gens += [J(into, fam, 2, 3, 1, V2, [3], V2), J(into, fam, 3, 1, 1, U3, [0, 3], V2)]
    gens += [J(FRESH["scal"], "scal", 2, 2, 1, V3, [0], [0]), J(FRESH["scal"], "scal", 3, 1, 1, V3, [0], [0])]
    models = [{"Fams": '{"apply", "neg"}', "R": 1, "C": 3, "Vals": "<- Signed2"}, {"Fams": '{"trans"}', "R": 2, "C": 2, "Vals": "{0, 1}", "Olds": "{9}"}]
    if run.thorough:
        models += [{"Fams": '{"trans"}', "R": 2, "C": 2}, {"Fams": '{"trans"}', "R": 2, "C": 3, "Vals": "{0, 1}", "Olds": "{9}"}, {"Fams": '{"apply", "neg"}', "R": 1, "C": 4, "Vals": "{0, 1, 2}", "Olds": "{9}"}]
    ops_check(run, gens, models, [{"Fams": '{"trans"}', "R": 2, "C": 2, "Vals": "{0, 1}", "Olds": "{9}", "Copying": "FALSE"}])


ALIASES = ["s", "m", "sm", "all", "maskS", "maskM", "sK", "mK", "sS", "mM", "aS"]   # sK: s is the output and m the mask; sS: s is both


@check
def C21(run):
    gens = []
    for ops, fam in ((["Add", "EwAddM"], "add"), (["Subtract"], "sub"), (["EwAddM"], "union"), (["EwMulM"], "inter")):
        ops = [o for o in ops if (o == "EwAddM") == (fam == "union") and (o == "EwMulM") == (fam == "inter")]
        gens.append(J(ops, fam, 1, 2, 1, V3, [3], V2, ALIASES))
        if run.thorough:
            gens.append(J(ops, fam, 2, 2, 1, V2, [3], V2, ALIASES))
    gens += [J(["EwAddV"], "union", 2, 1, 1, V3, [3], V2, ALIASES), J(["EwMulV"], "inter", 2, 1, 1, V3, [3], V2, ALIASES),
             J(["MxM"], "mul", 2, 2, 2, V2, [3], [0], ALIASES), J(["MxV", "VxM"], "mul", 2, 2, 1, V2, [3], V2, ["m", "mM"]),
             J(["Apply"], "apply", 2, 2, 1, V2, [3], V2, ["s", "maskS", "sS"]), J(["Negative"], "neg", 2, 2, 1, V3, [3], [0], ["s", "maskS", "sS"]),
             J(["Negative"], "neg", 1, 2, 1, V3, [3], V2, ["s"]), J(["Transpose"], "trans", 2, 2, 1, U3, [3], [0], ["s", "maskS", "sS"]),
             J(["Transpose"], "trans", 2, 2, 1, V2, [3], V2, ["s"])]
    if run.thorough:
        gens += [J(["MxM"], "mul", 2, 2, 2, V2, [3], V2, ALIASES), J(["Transpose"], "trans", 2, 2, 1, U3, [3], V2, ["s"]), J(["Transpose"], "trans", 3, 3, 1, V2, [3], [0], ["s"])]
    models = [{"Fams": '{"%s"}' % f, "Vals": "<- Signed", "Olds": "{9}"} for f in ("add", "sub", "union", "inter")]
    models.append({"Fams": '{"apply", "neg", "trans"}', "R": 2, "C": 2, "Vals": "{0, 1}", "Olds": "{9}"})
    models += [{"Fams": '{"add", "sub", "union", "inter"}', "Vals": "{0, 1}", "Olds": "{9}", "MaskObjs": '{"s", "m"}'},
               {"Fams": '{"apply", "neg"}', "C": 3, "Vals": "{0, 1}", "Olds": "{9}", "MaskObjs": '{"s"}'}, {"Fams": '{"trans"}', "R": 2, "C": 2, "Vals": "{0, 1}", "Olds": "{9}", "MaskObjs": '{"s"}'},
               {"Fams": '{"add", "sub", "union", "inter", "neg"}', "Vals": "<- FewSpecial", "Olds": "{9}", "Masks": "{0}", "AR": 1}]
    bad = [{"Fams": '{"trans"}', "R": 2, "C": 2, "Vals": "{0, 1}", "Olds": "{9}", "Copying": "FALSE"},
           {"Fams": '{"inter"}', "Vals": "<- FewSpecial", "Olds": "{9}", "Masks": "{0}", "AR": 1, "Copying": "FALSE"}]
    if run.thorough:
        models += [{"Fams": '{"%s"}' % f, "Vals": "<- SpecialVals", "Olds": "{9}", "Masks": "{0}", "AR": 1} for f in ("add", "sub", "union", "inter", "mul")]
        models += [{"Fams": '{"%s"}' % f, "Vals": "<- Signed", "Olds": "{9}", "MaskObjs": '{"s", "m"}'} for f in ("add", "sub", "union", "inter")]
        models += [{"Fams": '{"mul"}', "R": 2, "C": 2, "Vals": "{0, 1}", "Olds": "{9}"}] + [{"Fams": '{"%s"}' % f, "R": 2, "C": 2, "Vals": "{0, 1}", "Olds": "{9}", "Masks": "{0}"} for f in ("add", "sub", "union", "inter")]
    ops_check(run, gens, models, bad)


@check
def C19(run):
    g = run.generate("AccessGen", consts={"MaxDim": 4 if run.thorough else 3})
    t = run.drive("c19", gen=g)
    run.validate(t, "TraceAccess")


def must_fail(run, module, consts, cfg=None, text="is violated"):
    """a configuration of a design model that has to fail: the model can tell"""
    rc, out, st, dt = run.tlc(module, cfg or module + ".cfg", 4, consts=consts)
    if text not in out:
        raise CheckError("%s accepts %s: %s" % (module, consts, tail(out)))
    run.extra.setdefault("models_that_have_to_fail", []).append(dict(consts, module=module))


@check
def C10(run):
    def conf():
        g = run.generate("Reduce", cfg="ReduceGen.cfg", consts={"MaxLen": 4, "Caps": "{0, 1, 2, 4}"} if run.thorough else {"MaxLen": 3})
        seen = {json.dumps(x, sort_keys=True): x for x in g}
        g = list(seen.values())
        g += run.generate("OpsGen", jobs=[J(["Red"], "apply", 2, 2, 1, U3, [0], V2), J(["Red"], "apply", 3, 1, 1, V3, [0], V2), J(["Red"], "apply", 1, 3, 1, V3, [0], V2)])
        t = run.drive("c10", gen=g)
        run.validate(t, "TraceReduce")

    def models():
        run.model("Reduce", consts={"MaxLen": 4, "Caps": "{0, 1, 2, 3}"} if run.thorough else None)
        for k in ("Drain", "CommaOk", "Reuse"):
            must_fail(run, "Reduce", {k: "FALSE"})
        must_fail(run, "Reduce", {"AckOnCancel": "FALSE"}, text="Deadlock reached")
    parallel(conf, models)


@check
def C11(run):
    def conf():
        gens = []
        for o, fam in (("Add", "add"), ("Subtract", "sub"), ("EwAddM", "union"), ("EwMulM", "inter")):
            gens += [J([o], fam, 1, 2, 1, V2, [3], V2, ["", "s", "m", "sm", "all"])]
        gens += [J(["EwAddV"], "union", 2, 1, 1, V2, [3], V2), J(["EwMulV"], "inter", 2, 1, 1, V2, [3], V2), J(["MxM"], "mul", 1, 2, 2, V2, [3], [0]),
                 J(["MxM"], "mul", 2, 2, 1, V2, [3], [0]), J(["MxV", "VxM"], "mul", 2, 2, 1, V2, [3], [0]),
                 J(["Apply"], "apply", 2, 1, 1, U3, [3], V2, ["", "s"]), J(["Negative"], "neg", 1, 2, 1, V3, [3], V2, ["", "s"]),
                 J(["Transpose"], "trans", 2, 2, 1, V2, [3], [0], ["", "s"])]
        g = run.generate("OpsGen", jobs=gens)
        if not run.thorough:
            g = [x for i, x in enumerate(g) if (i + run.seed) % 3 == 0]
        t = run.drive("c11", gen=g)
        run.validate(t, "TraceCancel")

    def contexts():
        g = run.generate("ContextsGen", consts={"MaxLen": 4 if run.thorough else 3})
        t = run.drive("c11ctx", gen=g)
        run.validate(t, "TraceContexts")

    def models():
        run.model("Reduce", consts={"Caps": "{0}", "MaxLen": 4, "CanClose": "FALSE"})
        must_fail(run, "Reduce", {"AckOnCancel": "FALSE"}, text="Deadlock reached")
        step_models(run, [{"Fams": '{"add", "sub", "union", "inter", "apply", "neg"}', "Vals": "{0, 1}", "Olds": "{9}"},
                          {"Fams": '{"trans"}', "R": 2, "C": 2, "Vals": "{0, 1}", "Olds": "{9}"}])
        if run.thorough:
            step_models(run, [{"Fams": '{"%s"}' % f, "Vals": "<- Signed", "Olds": "{9}"} for f in ("add", "sub", "union", "inter")] +
                        [{"Fams": '{"mul"}', "R": 2, "C": 2, "Vals": "{0, 1}", "Olds": "{9}"}])
    parallel(conf, contexts, models)


LOCKOPS = ["At", "Set", "Update", "Clear", "Values", "Enum", "MapStep", "Element", "Copy", "RowsAt", "ColumnsAt", "RowsAtToArray",
           "Scalar", "Multiply", "Add", "Subtract", "Negative", "Transpose", "Equal", "NotEqual"]


@check
def C12(run):
    def conf():
        ops = "{" + ", ".join('"%s"' % o for o in LOCKOPS) + "}"
        g = run.generate("RWLock", cfg="RWLockGen.cfg", consts={"Threads": "{1, 2}", "MaxCalls": 2, "Ops": ops, "Locked": ops, "Panics": "FALSE", "Emit": "TRUE"}, workers=4)
        pairs = {(x["calls"][0][1], x["calls"][1][1]): x for x in g if x["calls"][0][0] != x["calls"][1][0]}
        g = [pairs[k] for k in sorted(pairs)]
        t = run.drive("c12", gen=g)
        run.validate(t, "TraceLock")

    def models():
        run.model("RWLock", consts={"MaxCalls": 5} if run.thorough else None)
        full = ["At", "Set", "Update", "Clear", "Enum"]
        for miss in full:
            must_fail(run, "RWLock", {"Locked": "{" + ", ".join('"%s"' % o for o in full if o != miss) + "}"})
        must_fail(run, "RWLock", {"WriteOps": '{"Set", "Update"}'})
        must_fail(run, "RWLock", {"Deferred": "FALSE"})
        must_fail(run, "RWLock", {"Nested": "TRUE"}, text="Deadlock reached")
    parallel(conf, models)


LOGREADS = ["At", "Size", "Values", "RowsAt", "ColumnsAt", "RowsAtToArray", "CopyLogical", "Enumerate", ".Transpose", "Equal", "NotEqual"]
RUNEREADS = ["Compare", "Less", "BubbleRow", "BubbleColumns", "ReduceMatrixToScalar"]
NUMREADS = ["Element", "Copy", ".Scalar", "Scalar", ".Negative", ".Add", ".Subtract", ".Multiply", "ToCSR", "ToCSC", "Add", "Subtract", "EwAddM", "EwMulM",
            "AddSelf", "Mask", "Apply", "Negative", "Transpose", "MxM", "MxM2", "ReduceMatrixToVector", "Strassen", "Reduced", "Symmetric"]


def tset(l):
    return "{" + ", ".join('"%s"' % x for x in l) + "}"


@check
def C13(run):
    def conf():
        g = run.generate("ReadersGen", consts={"MatOps": tset(LOGREADS + RUNEREADS + NUMREADS + ["BFS"]),
                                               "VecOps": tset(LOGREADS + RUNEREADS + NUMREADS + ["AtVec", "EwAddV", "EwMulV", "MxV", "VxM", "ReduceVectorToScalar"]),
                                               "LogOps": tset(LOGREADS)})
        t = run.drive("c13", gen=g, race=True, env={"GORACE": "halt_on_error=1 exitcode=66 atexit_sleep_ms=0"})
        run.validate(t, "TraceReaders")

    def models():
        run.model("Readers")
        run.model("Readers", consts={"Style": '"once"'})
        if run.thorough:
            run.model("Readers", consts={"Readers": "{1, 2, 3}", "Cells": 4, "Keys": "{1, 2, 3, 4, 5}"})
        for st in ("cache", "front", "insert"):
            must_fail(run, "Readers", {"Style": '"%s"' % st})
    parallel(conf, models)


@check
def C14(run):
    def conf():
        g = run.generate("BFS", cfg="BFSGen.cfg", consts={"N": 3, "Weights": "{0, 1}"})
        g += run.generate("BFS", cfg="BFSGen.cfg", consts={"N": 2, "Weights": "{0, 1, 2}"})
        g += run.generate("BFS", cfg="BFSGen.cfg", consts={"N": 1, "Weights": "{0, 1, 2}"})
        if run.thorough:
            g += run.generate("BFS", cfg="BFSGen.cfg", consts={"N": 4, "Weights": "{0, 1}", "Loops": "FALSE"})
        t = run.drive("c14", gen=g)
        run.validate(t, "TraceBFS")

    def models():
        run.model("BFS")
        run.model("BFS", consts={"N": 2, "Weights": "{0, 1, 2, 3}"})
        if run.thorough:
            run.model("BFS", consts={"N": 4, "Weights": "{0, 1}", "Loops": "FALSE"})
            run.model("BFS", consts={"N": 3, "Weights": "{0, 1, 2}"})
        for k in ("MaskAll", "Clears"):
            must_fail(run, "BFS", {k: "FALSE"})
    parallel(conf, models)


@check
def C15(run):
    def conf():
        g = run.generate("OpsGen", jobs=[J(["Strassen"], "mul", 2, 2, 2, V2, [0], [0]), J(["Strassen"], "mul", 1, 2, 2, V2, [0], [0]), J(["Strassen"], "mul", 2, 2, 1, V3, [0], [0]),
                                         J(["Strassen"], "mul", 1, 1, 2, V3, [0], [0]), J(["Strassen"], "mul", 2, 1, 2, V2, [0], [0])])
        t = run.drive("c15", gen=g)
        run.validate(t, "TraceOps", shard_mb=0.6)

    def models():
        run.model("Strassen")
        if run.thorough:
            run.model("Strassen", consts={"Vals": "{0, 1, 2}", "M": 8})
        for r, k, c in ((3, 3, 3), (1, 2, 2), (2, 2, 1)):
            consts = {"R": r, "K": k, "C": c}
            run.model("Strassen", consts=consts)
        must_fail(run, "Strassen", {"Tagged": "FALSE"})
        must_fail(run, "Strassen", {"EvenOnly": "FALSE", "R": 3, "K": 3, "C": 3, "Vals": "{1}"})
    parallel(conf, models)


@check
def C16(run):
    def conf():
        g = []
        for r, c, v in ((2, 3, "{0, 1, 2}"), (3, 2, "<- SignedVals2"), (2, 2, "{0, 1, 2, 4}"), (1, 4, "<- SignedVals2"), (4, 1, "<- SignedVals2")) + (((3, 3, "<- SignedVals"), (2, 4, "{0, 1, 2}")) if run.thorough else ((3, 3, "{0, 1}"),)):
            g += run.generate("RREF", cfg="RREFGen.cfg", consts={"R": r, "C": c, "Vals": v})
        t = run.drive("c16", gen=g)
        run.validate(t, "TraceRREF")

    def models():
        run.model("RREF")
        run.model("RREF", consts={"R": 3, "C": 2, "Vals": "<- SignedVals", "Candidates": "<- SignedVals"})
        if run.thorough:
            run.model("RREF", consts={"R": 3, "C": 3, "Vals": "<- SignedVals"})
            run.model("RREF", consts={"R": 2, "C": 3, "Vals": "<- SignedVals", "Candidates": "<- SignedVals2"})
        for k in ("Above", "Normal", "Restart"):
            must_fail(run, "RREF", {k: "FALSE"})
    parallel(conf, models)


@check
def C17(run):
    def conf():
        g = run.generate("Symmetry", cfg="SymmetryGen.cfg")
        g += run.generate("Symmetry", cfg="SymmetryGen.cfg", consts={"Shapes": "{33}", "Cells": "<- Signed" if run.thorough else "{0, 1}"})
        t = run.drive("c17", gen=g)
        run.validate(t, "TraceSymmetry")

    def models():
        run.model("Symmetry")
        run.model("Symmetry", consts={"Cells": "<- Bytes", "Bits": 8, "Shapes": "{22}"})
        run.model("Symmetry", consts={"Cells": "{0, 1}", "Shapes": "{33}"} if not run.thorough else {"Shapes": "{33}"})
        must_fail(run, "Symmetry", {"Diagonal": "FALSE"})
    parallel(conf, models)


@check
def C18(run):
    def conf():
        g = run.generate("Sort", cfg="SortGen.cfg")
        g += run.generate("Sort", cfg="SortGen.cfg", consts={"Shapes": "{32, 23}", "Cells": "{0, 1, 2}" if run.thorough else "{0, 1}"})
        t = run.drive("c18", gen=g)
        run.validate(t, "TraceSort")

    def models():
        run.model("Sort")
        run.model("Sort", consts={"Shapes": "{42}" if run.thorough else "{33}", "Cells": "{0, 1, 2}" if run.thorough else "{0, 1}"})
        if run.thorough:
            run.model("Sort", consts={"Shapes": "{51, 52}", "Cells": "{0, 1}"})
        must_fail(run, "Sort", {"Copies": "FALSE"})
        must_fail(run, "Sort", {"Whole": "FALSE"})
    parallel(conf, models)


@check
def C20(run):
    def conf():
        t = run.drive("c20")
        run.validate(t, "TraceOperators")

    def models():
        run.model("OperatorLaws")
        run.model("OperatorLaws", consts={"Uns": "TRUE"})
        for u in ("FALSE", "TRUE"):
            run.model("OperatorLaws", consts={"Op": '"max"', "Elements": "<- NonNeg", "Uns": u})
        run.model("OperatorLaws", consts={"Op": '"max"', "Uns": "TRUE"})
        if run.thorough:
            run.model("OperatorLaws", consts={"MaxLen": 6, "Elements": "<- Some"})
            run.model("OperatorLaws", consts={"Op": '"max"', "Elements": "<- NonNeg", "MaxLen": 6})
        must_fail(run, "OperatorLaws", {"Op": '"max"'})
        must_fail(run, "OperatorLaws", {"Op": '"sub"'})
        must_fail(run, "OperatorLaws", {"Op": '"second"'})
    parallel(conf, models)


if __name__ == "__main__":
    main(CHECKS)
