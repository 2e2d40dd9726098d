MI, RN = "src/util.cpp", "src/read_noise.cpp"
prop("C16", "The volume of a charge cloud follows the well model",
     "The fractional volume a cloud occupies never decreases with its size, lies between the first-electron volume (kept up to and including the notch) and one (reached at the full well), and follows the declared power law between. "
     "Each phase uses its own well, its own share of every trap density and its own dwell time; a CCD whose phases and shares differ in number is refused.",
     ["inputs", "configurations"], "every well depth, notch, first-electron volume, exponent and cloud size, empty and negative clouds included", "Tests evaluate some clouds in three wells.",
     [CC, TM], [("volume of a cloud", CC), ("managers of each phase", TM)], (), ["fractional volume", "trap populations of each phase"])
prop("C17", "Surface traps expose their declared density, volume by volume",
     "For traps spread unevenly over the depth of a pixel, the fraction exposed in a volume is the integral of the declared ramp (or step), lies between zero and one, grows with height, and adds up over adjoining volumes; an empty volume is harmless. "
     "The whole pixel holds exactly the declared number of traps, and uniform traps are wholly exposed.",
     ["inputs"], "every ramp and step, every three volumes in order, every density", "Tests integrate a few fixed ramps.",
     [TR, TM], [("exposed fraction of traps", TR), ("rescaling of the density", TR)], (), ["exposed fraction", "density"])
prop("C18", "Release and capture follow the exponential laws of the traps",
     "In one dwell, filled traps of lifetime tau empty with probability 1 - exp(-dwell/tau); with slow capture the chances of empty and of filled traps to end filled are the two solutions of the rate equations (Lindegren 1998), lie between zero and one, favour filled traps, and leave the equilibrium unchanged. "
     "A capture time of zero means instant capture; continua weigh each lifetime by its log-normal density.",
     ["inputs"], "every timescale and dwell time, several species, every lifetime of a continuum", "Tests compare some numbers for single values of the timescales.",
     [TM, TR], [("probabilities of one dwell", TM), ("integrands over lifetimes", TR)], (), ["probabilities", "integrands"])
prop("C19", "Tabulated filled fractions behave like the functions they replace",
     "For continuum traps the tabulated filled fraction lies between zero and one, never grows with the time elapsed, agrees with the integral at the tabulated times, and treats just-filled and never-filled traps exactly; the time found for a filled fraction leads back to that fraction and vice versa. "
     "The same holds, where it applies, for the fraction after slow capture.",
     ["inputs"], "every elapsed time within and beyond the table, every filled fraction within it", "Tests compare a table of a thousand points with stored values at some times.",
     [TR], [("tables and their interpolation", TR)], [("fill fraction table", "filled fractions at logarithmically spaced times, latest first", TR)], ["interpolated fractions and times"])
prop("C22", "The read noise model follows its formula in every pixel",
     "The estimate of the read noise in each pixel, whether inside the image, on an edge or in a corner, combines the clipped and weighted differences of the image from its smooth version, in the pixel and averaged over its neighbourhood, with those of the smooth version between neighbouring rows (and columns if asked). "
     "It is zero for a flat image, bounded by the clipping limits, and changes neither image.",
     ["inputs"], "any value of any pixel of images up to four by four, every amplitude", "There is no test of this function.",
     [RN], [("neighbour averages", RN), ("weights and clipping", RN)], (), ["output array"])
prop("C31", "Arrays, files and timers do what their names say",
     "Exchanging rows and columns puts every element in its place and is its own inverse; flattening lists rows in order; limiting keeps values between the limits and moves others to the nearer limit; ranges are evenly spaced up to the stop; elapsed times account for seconds and microseconds. "
     "An image saved to a text file loads again with the same shape and pixels to six decimals.",
     ["inputs"], "every value, all shapes within the bounds", "Tests use one array for each.", [MI], [("transpose, flatten, arange, clamp", MI), ("text files", MI)], (), ["returned arrays"])

PC, PB, PR, PV, PW = ("python/arcticpy/%s" % x for x in ("cti.py", "pixel_bounce.py", "read_noise.py", "vv_test.py", "wrapper.pyx"))
PM = ["python/arcticpy/%s.py" % x for x in ("ccd", "roe", "traps")]
prop("C23", "Separating read noise never changes the image",
     "The smooth image and the noise image always add up to the original, which is left untouched whatever its memory layout. Each iteration moves the noise estimated from the current smooth image, pixel by pixel, forth while the noise moved is below the declared amplitude and back when above, in smaller steps after each overshoot; a fraction asked for is what is separated in the end. "
     "Correction with noise separation corrects the smooth image only, and puts the noise back unchanged.",
     ["inputs", "configurations"], "every pixel value, every noise estimate the library may return, several iterations and memory layouts",
     "There is no test of the separation.", [PR, PC, PW], [("iterated separation", PR), ("correction of the smooth image", PC), ("passing of image buffers", PW)], (), ["smooth and noise images", "corrected image"])
prop("C24", "Pixel bounce is a decaying oscillation, row by row, and can be removed",
     "Each pixel of a row that departs from the bias by some amount sets the readout ringing: the bias added later in the row is the sum of one damped cosine per change between pixels, from the pixel itself on, with the declared amplitude, frequency and damping, and independent of other rows. "
     "It is taken off the image, acts only within the window, is linear in the image, and each iteration of its removal leaves just the response to the error that was left before.",
     ["inputs", "configurations"], "every pixel value, amplitude, frequency, damping and fraction, one and two models together, windows",
     "There is no test of pixel bounce.", [PB, PC], [("response of a row", PB), ("iterated removal", PB), ("subtraction after adding CTI", PC)], (), ["biased image", "corrected image"])
prop("C26", "The Python functions pass every setting on, and correction iterates",
     "Adding CTI from Python gives the library every setting of the detector, readout, traps and windows in its proper place for each direction, whatever the order of the species or the layout and type of the image, and leaves image and models unchanged. "
     "Correction runs the model as often as requested, each time adding the difference between data and modelled image to the estimate; negative pixels are only removed when not allowed. Options left out take their documented defaults; random realisations of traps keep everything but the density.",
     ["inputs", "configurations"], "every value of every setting, all species in various orders, all readouts, several image layouts and types",
     "Tests call the functions with a few settings at their defaults.", [PC, PW] + PM, [("collection of arguments", PC), ("marshalling of arrays", PW), ("descriptions of detectors, readout and traps", PM[0])], (), ["arguments of the library", "returned image"])
prop("C27", "The preset for the Hubble Space Telescope follows its calibration",
     "For any date after its launch the preset for the Advanced Camera for Surveys gives three species whose densities grow linearly with time in fixed proportions, before and after the repair, with release times that follow the change of temperature, the well and readout of that detector, and no serial CTI. Earlier dates are refused.",
     ["inputs"], "every date", "Tests use a few dates at most.", [PC], [("preset of the camera", PC)], (), ["models returned"])
prop("C33", "Covariance matrices measure what their figures of merit name",
     "Cell (i, j) of the matrix measured from an image, counted from its middle, is the mean product of the deviations of pixels i rows and j columns apart, for matrices of any odd shape; a constant added changes nothing and a factor enters squared. "
     "The figures of merit are the sums over the row, the column, the box, and the ring around the variance, without the variance, of signed or absolute values.",
     ["inputs"], "every pixel value, several shapes of image and matrix", "There is no test of covariances.", [PR], [("measurement from an image", PR), ("figures of merit", PR)], (), ["covariance matrix", "figures of merit"])
prop("C34", "The verification test recovers the trails it is shown",
     "If the overscan holds exactly the trail of the model at some amplitude above some bias, the test of an image returns that bias and the density of traps it implies, in either direction, whatever lies in columns with sources, in prescans, or away from the overscan. "
     "It fits only directions that have a model and an overscan, refuses models without trails, finds columns with bright sources by itself, keeps its results, and changes no image; asked for around a calculation it examines input and output alike.",
     ["inputs", "configurations"], "every bias, first guess, amplitude, density and pixel value, all combinations of options within the bounds", "There is no test of it.",
     [PV, PC], [("fit of the trail", PV), ("selection of columns", PV), ("tests before and after", PC)], [("results", "one result per test, in order", PV)], ["fitted bias and density"])
prop("C35", "Traps at every depth follow the law of their own history",
     "In each transfer filled traps beyond the reach of the charge cloud release the share their release time implies, and those within its reach, found anew once that charge has joined the cloud, capture: all empty ones at once for instant capture (after releasing first), the shares of the rate equations otherwise, and everywhere in the same proportion if the cloud runs out of electrons. "
     "Traps beyond its reach capture nothing. What happens at a depth does not depend on how the occupancy of traps at other depths happens to be recorded.",
     ["inputs", "histories"], "every depth in the pixel, every cloud, every occupancy of up to two distinct levels, every probability of release and capture, all four kinds of traps", "Tests compare the recorded levels after a few transfers with stored numbers.",
     [TM], [("release and capture of each kind of trap", TM)], [("watermark levels", "occupancy of traps by volume from the bottom of the pixel", TM)], ["occupancy at a depth", "electrons released and captured"])
prop("C36", "Results do not depend on units or on how equal traps are listed",
     "Multiplying every charge (image, wells, notches, densities) by a factor multiplies the resulting image by that factor, and multiplying every time (dwells, release and capture times) by a factor leaves it unchanged. "
     "Listing species in another order, or splitting one into two of half the density, changes nothing.",
     ["inputs", "configurations"], "every value of the pixels, for all kinds of traps, readout modes, wells and express settings within the bounds", "Tests fix one set of units and one list of traps.",
     [TM, TR, "src/cti.cpp", CC], [("release and capture", TM), ("distribution of lifetimes", TR), ("clocking", "src/cti.cpp"), ("wells", CC)], (), ["output image"])
prop("C37", "Charge is only ever delayed",
     "When every transfer is computed and the traps meet each pixel's first transfer empty, the charge that has arrived by any row of a column never exceeds the charge that was sent by that row. No pixel becomes negative.",
     ["inputs"], "every value of every pixel of columns of up to four rows, all kinds of traps, offsets, prescans, overscans and wells", "Tests look at single bright pixels.",
     [TM, "src/cti.cpp"], [("release and capture", TM), ("clocking of columns", "src/cti.cpp")], (), ["output image"])
