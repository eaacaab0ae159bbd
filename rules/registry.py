import physics
import pressure
import quant
import collide
import laws
import units
import search
import parallel
import program
import exporters
import loaders
import ids
import dialogue
import init
import settings

RULES = {"S01": physics.s01, "S04": search.s04, "S05": search.s05, "S02": collide.s02, "S03": laws.s03, "S17": parallel.s17, "S21": program.s21, "S22": program.s22, "S23": exporters.s23, "S24": exporters.s24, "S25": loaders.s25, "S26": loaders.s26, "S06": laws.s06, "S15": units.s15, "S16": laws.s16,
         "S07": physics.s07, "S08": physics.s08,
         "S09": pressure.s09, "S10": pressure.s10, "S11": pressure.s11, "S12": pressure.s12,
         "S13": quant.s13, "S14": quant.s14, "S20": quant.s20, "S18": ids.s18, "S27": dialogue.s27, "S28": init.s28, "S19": settings.s19}

EXPLAIN = {"*": "Value-flow abstract interpretation of the clang AST of the current source. Every obligation compares a canonical symbolic "
                "value (or effect) computed from the source, valid for all inputs and all numbers of loop iterations, with the value the property requires."}

ASSUMPTIONS = ["floating-point arithmetic is treated as exact real arithmetic",
               "standard library, Eigen, yaml-cpp, argparse and csv.h calls behave as documented (engine/lib.py)",
               "neighbour lists after a search are those of property S04"]

TECHNIQUE = {"*": "abstract interpretation: interprocedural value-flow canonicalisation over the clang AST with closed-form loop summaries"}
NOTE = {"*": "Decided from the source alone for all inputs and iteration counts; real arithmetic stands in for floating point, library calls follow a model of their documented semantics."}
