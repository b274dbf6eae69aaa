"""Scopes and the language."""
import fv
from checks.local import record_and_judge


def p21(ctx):
    name = "MCScopes" if ctx.quick else "MCScopesBig"
    ctx.add_model(fv.model_check("MCScopes", name), name)
    record_and_judge(ctx, [("histories", ["histories.cc"], [])], 8000, 120000,
                     "ScopesTrace", ["core"])


def p16(ctx):
    name = "MCTypes" if ctx.quick else "MCTypesBig"
    ctx.add_model(fv.model_check("MCTypes", name), name)
    record_and_judge(ctx, [("types", ["types.cc"], [])], 8000, 120000,
                     "TypesTrace", ["core", "feature", "operation",
                                    "lang_feature", "uncertainty"])


def p17(ctx):
    name = "MCTexts" if ctx.quick else "MCTextsBig"
    ctx.add_model(fv.model_check("MCTexts", name), name)
    record_and_judge(ctx, [("texts", ["texts.cc"], [])], 12000, 200000,
                     "TextsTrace", ["core"])


AST = ["core", "feature", "operation", "lang_feature", "ast", "ast_visitor",
       "ast_xml"]


def ast(ctx, group, n_quick, n_thorough):
    name = "MCAst" if ctx.quick else "MCAstBig"
    ctx.add_model(fv.model_check("MCAst", name), name)
    record_and_judge(ctx, [("ast%d" % group, ["ast.cc"],
                            ["-DGROUP=%d" % group])], n_quick, n_thorough,
                     "AstTrace", AST)


def p22(ctx):
    ast(ctx, 0, 6000, 90000)


def p23(ctx):
    ast(ctx, 1, 4000, 60000)


def p24(ctx):
    ast(ctx, 2, 6000, 90000)


def p25(ctx):
    ast(ctx, 3, 5000, 80000)


def p27(ctx):
    name = "MCFeatures" if ctx.quick else "MCFeaturesBig"
    ctx.add_model(fv.model_check("MCFeatures", name), name)
    record_and_judge(ctx, [("features", ["features.cc"], [])], 8000, 150000,
                     "FeaturesTrace", ["core", "feature", "operation",
                                       "lang_feature"])


def p30(ctx):
    name = "MCDrawings" if ctx.quick else "MCDrawingsBig"
    ctx.add_model(fv.model_check("MCDrawings", name), name)
    record_and_judge(ctx, [("drawings", ["drawings.cc"], [])], 5000, 80000,
                     "DrawingsTrace", AST)


def p31(ctx):
    name = "MCSession" if ctx.quick else "MCSessionBig"
    ctx.add_model(fv.model_check("MCSession", name), name)
    record_and_judge(ctx, [("execute", ["execute.cc"], [])], 5000, 80000,
                     "SessionTrace", AST + ["interpreter"])


def p32(ctx):
    name = "MCStores" if ctx.quick else "MCStoresBig"
    ctx.add_model(fv.model_check("MCStores", name), name)
    record_and_judge(ctx, [("stores", ["stores.cc"], [])], 4000, 40000,
                     "StoresTrace",
                     ["core", "feature", "operation", "lang_feature",
                      "lang_io_core", "lang_io_fern", "lang_io_gdal",
                      "exchange"])


def p33(ctx):
    name = "MCCommands" if ctx.quick else "MCCommandsBig"
    ctx.add_model(fv.model_check("MCCommands", name), name)
    record_and_judge(ctx, [("commands", ["commands.cc"], [])], 3000, 40000,
                     "CommandsTrace",
                     AST + ["interpreter", "lang_io_core", "lang_io_fern",
                            "lang_io_gdal", "command"],
                     ldflags=["-lreadline"])


def p34(ctx):
    name = "MCRasters" if ctx.quick else "MCRastersBig"
    ctx.add_model(fv.model_check("MCRasters", name), name)
    record_and_judge(ctx, [("bindings", ["bindings.cc"], [])], 8000, 120000,
                     "RastersTrace", ["core", "algorithm", "io_core",
                                      "io_gdal", "bindings"])
