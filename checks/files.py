"""Files."""
import os

import fv
from checks.local import record_and_judge


def p26(ctx):
    name = "MCIo" if ctx.quick else "MCIoBig"
    ctx.add_model(fv.model_check("MCIo", name), name)
    record_and_judge(ctx, [("io", ["io.cc"], [])], 4000, 60000, "IoTrace",
                     ["core", "feature", "algorithm", "io_core", "io_gdal",
                      "io_netcdf"])


def p29(ctx):
    name = "MCDocuments" if ctx.quick else "MCDocumentsBig"
    ctx.add_model(fv.model_check("MCDocuments", name), name)
    schemas = os.path.join(fv.SRC, "fern", "io", "gpx")
    record_and_judge(ctx, [("documents", ["documents.cc"],
                            ['-DGPX_DIR="%s"' % schemas])], 4000, 60000,
                     "DocumentsTrace", ["core", "io_core", "io_gpx",
                                        "uncertainty", "uncertml2"])
