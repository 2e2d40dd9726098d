#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json (python3 tools/gen.py)."""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
import spec
P, NA = [], []


def prop(id, title, statement, over, qtext, why, files, mech, state=(), observe=(), level_note="", na=None):
    assert len(title) <= 80, title
    d = dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=qtext), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech]))
    if state: d["anchors"]["state"] = [dict(name=n, meaning=m, where=w) for n, m, w in state]
    if observe: d["anchors"]["observe_at"] = list(observe)
    P.append((d, level_note))
    if na: NA.append(dict(property=id, reason=na))


CTI, TM, ROE, TR, CC, IF = "src/cti.cpp", "src/trap_managers.cpp", "src/roe.cpp", "src/traps.cpp", "src/ccd.cpp", "python/arcticpy/src/interface.cpp"
WMK = [("watermarks", "levels of a phase's traps: the volume each spans and the electrons per unit volume held there, with the index of the first active one and their number", TM)]

prop("C01", "Electrons are conserved by capture and release",
     "Whenever a charge cloud meets a population of traps, the electrons left in the cloud plus those held in the traps equal the electrons before, for every kind of trap. "
     "Over a whole column clocked with every transfer computed, the electrons missing from the image are exactly those still held in traps.",
     ["inputs", "histories"], "every cloud size, every valid distribution of electrons over trap levels, one and several species of instant, slow-capture, continuum and surface traps, every short sequence of transfers",
     "The tests compare a handful of hand-computed states to a tolerance; conservation has to hold in every branch (new level, partial level, not enough electrons, below all levels) for every value.",
     [TM, CTI], [("release then capture of each kind of population", TM), ("release fractions applied to pixels", CTI)], WMK, ["cloud size returned by a transfer", "trapped electrons reported", "output image"])
prop("C02", "Trap states stay physical and captures never exceed the cloud",
     "After any transfer every trap level spans a volume that is not negative, the levels together span at most the pixel, no species holds fewer than zero or more electrons than its density, and no storage is overrun. "
     "A transfer never captures more electrons than the cloud contains.",
     ["inputs", "histories"], "every cloud size and every valid earlier state, one and several species, every kind of trap",
     "Sampled clouds rarely meet the boundary cases (cloud equal to a level, empty probabilities of one, exactly as many electrons as vacancies).",
     [TM], [("capture limited by the available electrons", TM), ("creation and merging of levels", TM)], WMK, ["trap state after a transfer"])
prop("C03", "Pruning trap levels neither creates nor destroys electrons",
     "Removing trap levels that hold fewer electrons than a threshold keeps the number of trapped electrons exactly, never adds levels, always leaves a valid state, and leaves levels at or above the threshold alone. "
     "Transfers after pruning still conserve electrons.",
     ["inputs", "histories"], "every state of up to three (four) levels, every threshold, pruning at any point of a short history",
     "Tests prune two or three fixed states.", [TM, CTI], [("merging a level into its neighbours", TM), ("pruning after a number of rows", CTI)], WMK, ["trap state after pruning"])
prop("C04", "Clocking equals passing every pixel through its traps in turn",
     "Adding CTI in one direction gives the image that results from taking each row in readout order through every trap pixel between it and the readout, releasing and capturing in each step and phase of the clock sequence, with the traps left as the previous row left them. "
     "When only some transfers are computed, each computed transfer counts with its multiplier, and pixels are kept from becoming negative exactly when that is asked for.",
     ["inputs", "configurations"], "every pixel value, for one to four phases, every kind of trap and readout option, all and some transfers computed",
     "Tests compare a few fixed columns with stored numbers from an earlier version.",
     [CTI, ROE, TM], [("loops over columns, passes, rows, steps and phases", CTI), ("trap states handed from pass to pass", CTI)], [("stored trap states", "traps as the next pass finds them", TM)], ["output image"])
prop("C05", "Express multipliers add up to the true number of transfers",
     "However few transfers are actually computed, the multipliers assigned to a pixel add up to the number of transfers the pixel makes on its way to the readout (its distance, offset and prescan; all transfers for injected charge; the number of pumps for trap pumping). "
     "Multipliers are never negative, never larger than one pass stands for, whole numbers when asked for, and with traps initially empty the first transfer of each pixel stands alone; a pass starts from the traps as the right pixel of the pass before left them.",
     ["configurations"], "every combination of number of rows, express setting, offset, prescan, overscan, whole-number and empty-first options within the bounds",
     "Tests list some tables; the arithmetic of truncation and remainders has to be right for every combination.",
     [ROE], [("express tables of standard, injection and pumping readout", ROE), ("table of stored states", ROE)], (), ["table of multipliers", "table of stored states"])
prop("C07", "Clock sequences route every packet to the nearest pixel",
     "In every step of the clock sequence each phase captures from the packet under its high electrode, and releases to the nearest packet, ties being shared equally; released fractions add up to one and the sequence returns to where it began shifted by one pixel (or by none for trap pumping). "
     "Clocking applies exactly these routes, ignoring parts of packets beyond the edges of the image.",
     ["configurations", "inputs"], "up to six phases or steps, both conventions for releasing away from the readout, every pixel value",
     "Tests list the sequences of two to four phases only.", [ROE, CTI], [("construction of the clock sequence", ROE), ("use of pixel offsets", CTI)], (), ["clock sequence", "output image"])
prop("C08", "Windows touch only the pixels they contain",
     "Restricting a calculation to a window leaves every pixel outside it exactly as it was. Inside it the result is that of the same window content without dependence on pixels that lie before the window in readout order or in other columns; a window that begins at the readout reproduces the unrestricted result inside it.",
     ["inputs", "configurations"], "every non-empty window of images up to three by two (three by three), every pixel value, parallel and serial",
     "Tests use two fixed windows.", [CTI], [("window bounds and defaults", CTI), ("swapping of windows for serial clocking", CTI)], (), ["output image"])
prop("C09", "Nothing to trap means nothing changes",
     "Without traps, with traps of zero density, without a readout, with an empty image, or with charge that stays inside a supplementary buried channel, adding CTI returns the image unchanged and free of invalid numbers. Correcting such an image, or correcting with no iterations, returns it unchanged too.",
     ["inputs", "configurations"], "every pixel value, every kind of trap, several phases and express settings", "Tests try one empty case.",
     [CTI, TM, CC], [("volume occupied by a cloud", CC), ("early exits and zero densities", TM)], (), ["output image"])
prop("C10", "Columns are independent, or share traps exactly when asked to",
     "When traps are emptied between columns, each column of an image comes out as if it were alone, in any order and number of columns. When they are not, each column meets the traps as the preceding column left them.",
     ["inputs", "configurations"], "two and three columns with every pixel value, pruning and express on or off", "Tests compare a single fixed pair of columns.",
     [CTI, TM], [("reset or carry of trap states between columns", CTI), ("private trap states of each parallel column", CTI)], (), ["output image"])
prop("C11", "Pixels read out earlier do not depend on later ones",
     "With single-phase readout, the value a pixel ends up with depends only on itself and on pixels of its column nearer the readout: changing the charge of any later pixel changes no earlier pixel.",
     ["inputs"], "two arbitrary values of any one pixel, all others arbitrary", "Pairs of images that differ in one pixel are not tested at all.",
     [CTI, ROE, TM], [("order of rows within a pass", CTI), ("trap states handed from pass to pass", ROE)], (), ["output image"])
prop("C12", "Serial clocking mirrors parallel clocking and follows it",
     "Adding CTI in the serial direction equals adding it in the parallel direction to the image with rows and columns exchanged, each with its own window. Given both, parallel clocking comes first and serial clocking works on its result, each with its own readout, traps, express, offset and pruning; the input image is not modified.",
     ["inputs", "configurations"], "every pixel value, every window, different models in the two directions", "Tests use one fixed image per direction and no mixed options.",
     [CTI, "src/util.cpp"], [("transposition around serial clocking", CTI)], (), ["output image"])
prop("C13", "Offsets, prescans and padding rows are equivalent",
     "Declaring an image to start a number of rows from the readout, declaring a prescan of that length, and padding the image with that many empty rows all give the same result, and the padding stays empty. Rows of a physical overscan make only the transfers their position requires.",
     ["inputs", "configurations"], "offsets, prescans and overscans within the bounds, every pixel value", "Tests compare one offset with padding on one column.",
     [ROE, CTI], [("offset and overscan in the express table", ROE)], (), ["output image"])
prop("C14", "No schedule of threads changes a result",
     "Columns clocked by several threads, and the pixels of the read noise model worked on by several threads, give exactly what one thread gives, whatever the number of threads and the order in which they make progress. Columns that share their traps are clocked one after the other.",
     ["schedules", "inputs"], "two to four threads, every interleaving of their memory accesses under static sharing of the columns, every pixel value", "Tests run one schedule the machine happens to choose and compare with nothing.",
     [CTI, "src/read_noise.cpp"], [("columns clocked in parallel with private traps", CTI), ("pixels of the noise model in parallel", "src/read_noise.cpp")], (), ["output image"])
prop("C15", "Correction iterates the forward model and approaches the true image",
     "Each iteration of the correction adds to the estimate the data minus the estimate with CTI added, setting negative pixels to zero exactly when they are not allowed. The error of the estimate does not grow from one iteration to the next, an image that CTI leaves alone is left alone, and the data are not modified.",
     ["inputs"], "every pixel value, up to three iterations, both directions, negative pixels allowed or not", "Tests check that five iterations come close for one image.",
     [CTI], [("iteration of the forward model", CTI)], (), ["corrected image"])
prop("C20", "The flat interface computes what the library computes",
     "The interface used by the Python package, given the same model as flat arrays, returns exactly what the library returns: every option of both readouts, every trap parameter, phase parameter, window, offset, express and pruning setting reaches its place in its direction.",
     ["configurations", "inputs"], "every kind of readout and trap in either direction with distinct values for distinct options, every pixel value", "The Python tests change one option at a time with the others at their defaults.",
     [IF, "python/arcticpy/include/interface.hpp"], [("unpacking of flat arrays", IF)], (), ["image buffer after the call"])
prop("C21", "Calculations are pure: no trace of earlier use, no harm to inputs",
     "The result of a calculation depends only on its arguments: model objects used before for other images, windows or settings give the same result as fresh ones, repeating a calculation repeats its result, and neither the input image nor the trap species change. No calculation reads or writes outside its data.",
     ["histories", "inputs"], "two calculations after one of another shape and setting, every pixel value, every kind of readout", "Tests build fresh objects each time.",
     [CTI, ROE, TM], [("tables rebuilt for each calculation", ROE), ("trap states created for each calculation", CTI)], (), ["output images", "model objects"])
prop("C25", "Readout models are validated, and copies are faithful",
     "A readout model can be constructed exactly for sensible options: a negative prescan, an overscan before the first pixel or an odd number of pumping steps are refused. Copying or assigning a model of any kind gives one with all the same settings that behaves the same and shares nothing with the original.",
     ["configurations"], "every integer option within a million either side of zero, up to six steps", "Tests copy nothing and refuse nothing.",
     [ROE, "include/roe.hpp"], [("constructors", ROE), ("assignment", ROE)], (), ["constructed objects"])
prop("C28", "Charge injection and trap pumping follow their own transfer counts",
     "Injected charge makes every transfer to the readout in every row and meets the traps empty in every pass. Trap pumping repeats its back-and-forth sequence on the one active row the requested number of times, whatever the express setting, moving charge only among that row and its neighbours.",
     ["configurations", "inputs"], "every number of pumps, passes, options and pixel values within the bounds", "Tests list some tables and one pumped image.",
     [ROE, CTI], [("injection and pumping tables", ROE), ("clocking of the active row", CTI)], (), ["tables", "output image"])
prop("C30", "Stored trap states come back exactly, and reset empties the traps",
     "Restoring gives back exactly the trap state that was stored, whatever happened in between and however often; a reset leaves traps that hold and release nothing. Passes and columns therefore start from exactly the traps they are meant to meet.",
     ["histories", "inputs"], "every stored state of up to two levels, one transfer or reset in between, every kind of trap; whole columns with several passes", "Tests store and restore one state.",
     [TM, CTI], [("store, restore and reset", TM), ("handing over between passes and columns", CTI)], WMK, ["trap state", "output image"])
prop("C32", "Printing never influences results",
     "Results are identical whatever is printed: no verbosity level or request to print the inputs changes any pixel, fails, or reads data that is not there.",
     ["configurations", "inputs"], "verbosity levels zero to two, every kind of trap and readout, every pixel value", "Tests run at one verbosity.",
     [CTI, "src/util.cpp"], [("printing of inputs and progress", CTI)], (), ["output image"])

exec(open(os.path.join(HERE, "tools", "more.py")).read()) if os.path.exists(os.path.join(HERE, "tools", "more.py")) else None
na_ids = {n["property"] for n in NA}
with open(HERE + "/properties.jsonl", "w") as f:
    for d, _ in sorted(P, key=lambda x: x[0]["id"]):
        f.write(json.dumps(d) + "\n")
checks = []
for d, note in sorted(P, key=lambda x: x[0]["id"]):
    i = d["id"]
    if i in na_ids: continue
    s = spec.SPECS[i]
    kinds = {type(j).__name__ for j in s["quick"]}
    tech = ("path-wise symbolic execution of the compiled LLVM IR of /repo with Z3" if kinds == {"Job"} else
            "symbolic execution of the Python sources of /repo with Z3" if kinds == {"PyJob"} else
            "symbolic execution of the LLVM IR and the Python sources of /repo with Z3")
    c = dict(property=i, quick_cmd="python3 run.py %s --tier quick" % i, technique=tech, level="model_checking",
             level_note=(note or "Bounded: " + s["bounds"] + ". Doubles are treated as exact reals; counterexamples are replayed on the real code. Explorations cut by the time limit are listed in the evidence."))
    if s["thorough"]: c["thorough_cmd"] = "python3 run.py %s --tier thorough" % i
    checks.append(c)
json.dump(dict(version=1, setup_cmd="mkdir -p evidence build", checks=checks, not_applicable=NA,
               notes="All checks: python3 run.py PROPERTY; a counterexample is replayed with python3 run.py PROPERTY --replay FILE."),
          open(HERE + "/MANIFEST.json", "w"), indent=1)
print(len(P), "properties,", len(checks), "checks,", len(NA), "not applicable")
