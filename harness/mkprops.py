#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the wording is reviewable)."""
import json, os
P=[]
def p(id,title,stmt,over,text,why,files,mech,state=(),obs=()):
    P.append(dict(id=id,title=title,statement=stmt,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=["src/rascal/"+f for f in files],
        state=[dict(name=a,meaning=b,where=c) for a,b,c in state],
        mechanism=[dict(name=a,where=b) for a,b in mech],
        observe_at=list(obs),hook_needed=None)))

p("A01","The atlas holds exactly the lines added and not yet removed",
 "After any sequence of adding library lines, adding user lines, removing wavelength ranges and clearing, an atlas contains exactly the lines that were added and have not been removed since, in the order of addition, each with the element, wavelength and intensity (0 if the user gave none) it was added with. The wavelength, element and intensity listings and the reported length always describe the same lines in the same order, and two atlases never share lines.",
 ["histories","inputs"],"every finite sequence of atlas operations on one or more atlases, with scalar, list or array arguments",
 "the tests add and remove a handful of fixed lists once and look at lengths only; entry-wise agreement over interleaved histories is never looked at",
 ["atlas.py"],[("Atlas.add / add_user_atlas append AtlasLine objects","atlas.py"),("get_lines/get_elements/get_intensities project the same list","atlas.py")],
 [("atlas_lines","ordered list of line records","Atlas")],["get_lines()","get_elements()","get_intensities()","len()","list()"])
p("A02","Removing a wavelength range removes every line in it and nothing else",
 "Removing the lines around a wavelength deletes every line closer to it than the tolerance, including runs of adjacent and repeated lines, and leaves every other line with its element and intensity untouched and in the same order; a line exactly at the tolerance is kept. The same call made through the calibrator removes exactly the same lines, and clearing leaves none.",
 ["histories","inputs"],"every atlas content (dense, repeated, empty), wavelength and tolerance",
 "the single test removes one isolated range; skipping neighbours needs adjacent lines",
 ["atlas.py","calibrator.py"],[("Atlas.remove_atlas_lines_range","atlas.py"),("Calibrator.remove_atlas_lines_range delegates","calibrator.py")],
 obs=["get_lines() before and after"])
p("A03","Line selection returns exactly the qualifying library lines",
 "Loading calibration lines returns exactly the lines of the chosen line list that belong to the requested elements (names in any case), lie in the requested wavelength range (ends included) and reach the minimum intensity requested (for all, or per element), limited to the brightest n if n is given. Each wavelength appears once, in increasing order, with its own element and intensity (if the list gives a wavelength more than once, its first entry counts).",
 ["inputs","configurations"],"every line list file, element set, wavelength range, intensity threshold (none, number, per element) and brightest-n limit, with the separation filter off",
 "tests check that a few parameter values are accepted and compare a few counts; which lines come back is not compared with the list",
 ["util.py","atlas.py"],[("load_calibration_lines","util.py"),("filter_wavelengths / filter_intensity","util.py")],
 obs=["load_calibration_lines()","Atlas(...).get_*()"])
p("A04","The separation filter keeps exactly the isolated lines",
 "With a minimum separation, a selected line is kept if and only if it is at least that far from both its nearest shorter and nearest longer neighbour among the lines that passed the range, intensity and brightest-n selection of the same element request. A line with no neighbour on a side is judged by the other side only, and a single line is always kept.",
 ["inputs","configurations"],"every increasing wavelength list (also with 0, 1 or 2 lines) and separation, combined with every intensity and brightest-n selection",
 "tests use one mask example in wavelength order; order of the filters and end points are not settled",
 ["util.py","atlas.py"],[("filter_separation","util.py"),("order of filters in load_calibration_lines","util.py")],
 obs=["filter_separation()","load_calibration_lines()"])
p("A05","Air and vacuum wavelengths are treated consistently everywhere",
 "Lines requested in air are the same lines requested in vacuum with each wavelength converted from vacuum to air under the requested pressure, temperature and humidity, and the requested range is then a range in air; a user line list flagged for conversion is converted the same way with its own conditions, and otherwise is kept unchanged. Converting from vacuum to air and back returns the wavelength, and conversion keeps the order of the lines.",
 ["inputs","configurations"],"every element, range and atmospheric condition, through the loader, the atlas constructor, adding to an atlas, user lines and the calibrator-level calls",
 "tests check one conversion number and that flags are accepted; argument plumbing through the five entry points is not compared",
 ["util.py","atlas.py","calibrator.py"],[("vacuum_to_air_wavelength / air_to_vacuum_wavelength","util.py"),("conditions passed on by Atlas.add, Atlas.add_user_atlas, Calibrator.add_atlas, Calibrator.add_user_atlas","atlas.py, calibrator.py")],
 obs=["wavelengths returned by each entry point"])
p("A06","Calibrator-level atlas calls equal the same calls on an atlas",
 "Adding library lines, adding user lines, removing and clearing through the calibrator leaves its atlas exactly as the same calls on a stand-alone atlas would, where a library range not given defaults to the calibrator's wavelength limits widened by its range tolerance, and the candidate tolerance and polygon option given with the call take effect. Repeated additions accumulate.",
 ["histories","configurations"],"every sequence of calibrator-level atlas calls and wavelength-limit changes",
 "each deprecated call is exercised once with default arguments",
 ["calibrator.py","atlas.py"],[("Calibrator.add_atlas/add_user_atlas/remove_atlas_lines_range/clear_atlas/set_atlas","calibrator.py")],
 obs=["calibrator.atlas","search-space pairs"])
p("C01","Settings stick until changed, and invalid settings never take effect",
 "Each calibrator, Hough and RANSAC setting holds the last value explicitly given for it, no matter how many later calls configure other settings, and its built-in default until one is given. A minimum number of matches that is not positive, a peak utilisation outside 0 to 1 and a negative minimum error are rejected with an error and never become effective.",
 ["histories","configurations"],"every sequence of configuration calls with every subset of settings",
 "tests set one value at a time on fresh objects",
 ["calibrator.py"],[("set_calibrator_properties / set_hough_properties / set_ransac_properties: explicit, else default if unset, else keep","calibrator.py")],
 obs=["attributes after each call"])
p("C02","Search limits always follow from the wavelength limits and tolerances",
 "After any configuration of the spectral range, the allowed intercepts are the minimum wavelength plus and minus the range tolerance, and the allowed slopes lie between those of the shallowest and the steepest line across the pixel axis, which connect the lowest allowed intercept with the maximum wavelength, both narrowed or both widened by the range tolerance plus the linearity tolerance. The Hough transform is always computed with these limits.",
 ["histories","configurations"],"every sequence of range configurations, pixel axes and tolerance values",
 "no test looks at the derived limits",
 ["calibrator.py","houghtransform.py"],[("set_hough_properties derived limits","calibrator.py"),("do_hough_transform passes the limits","calibrator.py")],
 obs=["min/max intercept and slope of the calibrator and of its Hough transform"])
p("C03","Exactly one plotting backend is selected",
 "After any sequence of selections, the plotting library in use is the last valid one chosen (matplotlib by default), exactly one is ever in use, and the calibrator reports that one. Choosing an unknown library leaves the backend in use unchanged.",
 ["histories"],"every sequence of backend selections through the configuration call and the direct calls",
 "tests call each selector once",
 ["calibrator.py"],[("use_matplotlib/use_plotly/which_plotting_library/set_calibrator_properties","calibrator.py")],
 obs=["which_plotting_library()","type of figure produced"])
p("D01","The search space is every peak with every current atlas line",
 "The peak-line pairs considered by the calibrator are exactly all combinations of a detected peak and a line currently in its atlas, each once, restricted to the polygon of plausible pairs if that option is on. A fit never considers a line that has been removed, and always considers the lines added since, whichever object the atlas was changed through.",
 ["histories","inputs"],"every sequence of atlas changes, range changes, transforms and fits",
 "tests build the pairs once from an unchanging atlas",
 ["calibrator.py"],[("_generate_pairs called by every atlas or range change and by fit","calibrator.py")],
 [("pairs","peak-line combinations","Calibrator")],["pairs","matched lines of fit()"])
p("H01","The Hough transform is sound and complete over the slope grid",
 "For every point and every slope of the evenly spaced grid between the slope limits (both included), the transform contains the line of that slope through that point if and only if its intercept is within the intercept limits (ends included), and it contains nothing else. The number of slopes is the one configured.",
 ["inputs","configurations"],"every set of points, slope and intercept limits and number of slopes",
 "tests only check the shape for one data set",
 ["houghtransform.py","calibrator.py"],[("generate_hough_points","houghtransform.py")],obs=["hough_points"])
p("H02","The brute-force Hough transform holds exactly the lines through two points",
 "The brute-force transform contains one entry for each pair of points whose connecting line has a slope and an intercept strictly inside the limits, namely that line, and nothing else, whatever the order of the points. Pairs of points sharing the same pixel contribute nothing.",
 ["inputs","configurations"],"every set and order of points, including repeated pixels, and every limit",
 "one test checks that it runs",
 ["houghtransform.py"],[("generate_hough_points_brute_force","houghtransform.py")],obs=["hough_points"])
p("H03","Hough binning counts every point once and ranks bins by count",
 "Binning counts every Hough point in exactly the bin that contains it, over equal-width bins spanning the data, with the configured numbers of bins in slope and intercept. The Hough lines are the centres of all the bins, each once, in order of non-increasing count.",
 ["inputs","configurations"],"every set of Hough points (also after extending it) and every pair of different bin counts",
 "tests use the same number of bins for both axes and do not look at the ranking",
 ["houghtransform.py"],[("bin_hough_points / _sort_hough_lines","houghtransform.py")],obs=["hist, edges, hough_lines"])
p("H04","A saved Hough transform is restored completely and used",
 "Saving a Hough transform to disk in either format and loading it, into a bare transform or a calibrator, restores the points, histogram, bin edges, limits and ranked lines of the saved one, whatever the receiver held before; saving to memory returns that content. A calibrator that loaded a transform fits with it instead of computing its own.",
 ["histories","inputs"],"every transform, both formats, single or combined, and every interleaving of compute, extend, save and load",
 "tests save and load but do not compare content, and do not fit after loading",
 ["houghtransform.py","calibrator.py"],[("save / load","houghtransform.py"),("save_hough_transform / load_hough_transform","calibrator.py")],obs=["content of both objects","candidates used by fit"])
p("H05","Extending a Hough transform adds exactly the given points",
 "Adding points from another transform or from an array appends exactly those points after the existing ones and changes neither the source nor the limits; anything else is rejected with an error and changes nothing. A later binning counts old and new points alike.",
 ["histories","inputs"],"every sequence of compute, extend and bin operations",
 "one test extends once and checks nothing",
 ["houghtransform.py"],[("add_hough_points","houghtransform.py")],obs=["hough_points before and after","sum of the histogram"])
p("F01","A fit matches peaks and atlas lines one to one",
 "In every solution returned by a fit, each matched peak is a detected peak, each matched line is a line of the current atlas, no peak and no line is used twice, and the two lists are paired by position. Each pair lies within the inlier tolerance of the best trial solution.",
 ["inputs","configurations","schedules"],"every set of peaks, atlas, setting and random sampling order, including dense atlases where several peaks compete for a line",
 "tests use well separated lines where the closest choice is never contested",
 ["calibrator.py"],[("_match_bijective","calibrator.py"),("_solve_candidate_ransac","calibrator.py")],obs=["fit() return value"])
p("F02","Everything a fit reports describes the returned solution",
 "The returned residuals are the wavelengths predicted by the returned coefficients at the matched peaks minus the matched lines (limited above by the inlier tolerance), the returned error is their root mean square, and the utilisations are the number of matches over the number of detected peaks and over the number of atlas lines. The coefficients are the least-squares polynomial of the requested degree through the matched pairs, for every polynomial type (robustly so: a pair further off than the scatter of the others counts linearly), or the given baseline exactly as given if that was not outperformed, and the calibrator afterwards holds the same values it returned.",
 ["inputs","configurations"],"every fit with every degree, polynomial type, peak set and atlas",
 "tests check that the fit is close to the truth and a lower bound on the utilisation",
 ["calibrator.py","models.py"],[("fit / _solve_candidate_ransac / robust_polyfit","calibrator.py, models.py")],obs=["fit() return value","attributes"])
p("F03","A fit that violates the user's acceptance thresholds is never returned",
 "A solution found by a fit has at least the requested minimum number of matches, at least the requested fraction of detected peaks matched, more matches than the polynomial degree, and an error of at least the requested minimum. If no such solution is found, and no baseline was given, the fit fails with an error rather than returning one, and no fit changes the thresholds requested.",
 ["inputs","configurations","schedules"],"every combination of thresholds, including unsatisfiable ones, and every sampling order",
 "tests set thresholds that are comfortably met",
 ["calibrator.py"],[("threshold checks in _solve_candidate_ransac","calibrator.py"),("assert in fit","calibrator.py")],obs=["fit() return value or error"])
p("F04","Only physically plausible trial solutions are accepted",
 "The trial solution from which a returned match derives has an intercept within the configured intercept range and is strictly increasing over the range of the peaks extended by a fifth on both sides, and was obtained by fitting a sample of pairs with distinct peaks and, if sampled randomly, distinct lines that are all candidates (plus the known pairs). No other trial is ever accepted, however well it matches.",
 ["inputs","configurations","schedules"],"every peak set, atlas, range and random sampling order where an implausible trial scores best",
 "in the tests the implausible trials never score best",
 ["calibrator.py"],[("intercept and monotonicity checks","calibrator.py"),("unique draw of wavelengths","calibrator.py")],obs=["trial fits","fit() return value"])
p("F05","A fit always ends after a bounded number of trials",
 "A fit ends for every input, with a solution or an error, after a number of trial fits bounded by a fixed multiple of the number of tries requested (random sampling) or by the number of sample combinations (brute force), including when no trial can satisfy the constraints. It tries at least as many samples as requested if samples can be drawn.",
 ["inputs","configurations","schedules"],"every peak set, atlas and constraint, including unsatisfiable ones",
 "tests have satisfiable constraints only; non-termination cannot be observed by passing tests",
 ["calibrator.py"],[("sampling loop","calibrator.py")],obs=["number of trial fits","return of fit()"])
p("F06","Known pairs take part in every trial",
 "Once known pixel-wavelength pairs are set, every trial fit uses all of them in addition to its sample, for one pair, several pairs, and pairs outside the detector, until they are replaced; invalid or unequal-length pairs are rejected with an error and the previous ones kept.",
 ["histories","inputs"],"every sequence of setting known pairs and fitting, in random and brute-force sampling",
 "tests set known pairs and fit, which also succeeds if they are ignored",
 ["calibrator.py"],[("set_known_pairs","calibrator.py"),("concatenation in the sampling loop","calibrator.py")],obs=["samples of the trial fits"])
p("F07","The best admissible trial wins",
 "The returned match is that of an admissible trial with the lowest score among all the trials made, where the score is the summed clipped error over the degrees of freedom divided by the weight of the trial (one, or if configured its non-negative density in the Hough histogram at its slope and intercept). If a baseline solution is given that matches the candidates, of more peaks than its degree, and no admissible trial scores better, the baseline is returned; brute force makes a trial of every combination of candidates of the sample size with distinct peaks and lines.",
 ["inputs","configurations","schedules"],"every set of trials in every order, with and without baseline",
 "tests accept any solution near the truth; a later worse or a first-found solution passes them",
 ["calibrator.py"],[("cost comparison in _solve_candidate_ransac","calibrator.py")],obs=["trial fits","fit() return value"])
p("F08","Candidates are supported by the Hough lines and limited per peak",
 "Every candidate pair offered to the fit is a pair of the search space lying within the candidate tolerance of one of the Hough lines (or, in polynomial mode, of the baseline shifted within the range tolerance), every peak with such a pair has a candidate, and no peak has more candidates than configured. The candidates of a peak are the lines supported most, counting or weighting support as configured.",
 ["inputs","configurations"],"every peak set, atlas, Hough transform, tolerance and candidate limit",
 "candidates are internal and never looked at by the tests",
 ["calibrator.py"],[("_get_candidate_points_linear/_poly","calibrator.py"),("_get_most_common_candidates","calibrator.py")],obs=["candidates, candidate_peak, candidate_arc after fit()"])
p("M01","Matching peaks to a solution is closest-first and one to one",
 "Matching detected peaks to the atlas with a given solution pairs peaks and current atlas lines closer than the tolerance under that solution, using each peak and each line at most once; every peak whose closest line is claimed by no other peak is matched to that line, and of several peaks with the same closest line only the closest one is. With neither refinement nor refit the solution comes back unchanged.",
 ["inputs","configurations"],"every solution, peak set, atlas density and tolerance, including several peaks per line and several lines per peak",
 "tests match well separated lines, where any rule gives the same answer",
 ["calibrator.py"],[("match_peaks / _match_bijective","calibrator.py")],obs=["match_peaks() return value"])
p("M02","Everything a match reports describes the returned solution",
 "The residuals returned by matching or manual refitting are the matched lines minus the prediction of the returned coefficients, the error is their root mean square, utilisations are matches over peaks and over atlas lines, and a refit is the least-squares polynomial of the requested degree through the returned pairs (robustly so: a pair further off than the scatter of the others counts linearly). The calibrator afterwards holds the returned values.",
 ["inputs","configurations","histories"],"every history of fit, match, edit and refit, with every degree",
 "tests check closeness to the truth",
 ["calibrator.py","models.py"],[("match_peaks / manual_refit","calibrator.py")],obs=["return values","attributes"])
p("E01","The list of matched pairs can be edited like a sorted table",
 "Adding a pair puts it in pixel order and keeps all the others; removing by position removes exactly the pair listed at that position; the listing always shows the current pairs with consecutive positions. A rejected edit changes nothing, and a refit uses exactly the current pairs.",
 ["histories","inputs"],"every sequence of add, remove, list and refit, from any fitted solution",
 "tests add one and remove one pair in the middle",
 ["calibrator.py"],[("get_pix_wave_pairs/add_pix_wave_pair/remove_pix_wave_pair/manual_refit","calibrator.py")],obs=["get_pix_wave_pairs()","manual_refit() return value"])
p("R01","A seeded calibration is reproducible",
 "Configuring the same seed before the same sequence of calls on equal inputs gives identical results every time, whatever was computed before in this or other calibrators, in this or another process, and whatever other activity that is not a fit takes place in between. Without a seed, configuring a calibrator does not disturb the random generator, and nothing but a fit draws from it.",
 ["histories","schedules"],"every configuration and any preceding activity, and any interleaved activity other than a fit",
 "no test runs the same calibration twice",
 ["calibrator.py"],[("np.random.seed in set_calibrator_properties","calibrator.py")],obs=["fit() return values of repeated runs"])
p("I01","Inputs of the caller are never modified nor shared",
 "No operation modifies the peaks, spectrum, line lists, known pairs, coefficients or arrays passed by the caller, and changing those afterwards does not change the state of the calibrator. Calibrators and atlases share no state with each other beyond an atlas explicitly given to both.",
 ["histories","inputs"],"every sequence of operations, with lists and arrays of any numeric type as inputs",
 "tests never compare their inputs afterwards",
 ["calibrator.py","util.py","atlas.py","synthetic.py","plotting.py","models.py"],[("deepcopy in the constructor, copies in util","calibrator.py, util.py")],obs=["inputs before and after"])
p("L01","Plotting is read-only",
 "No plot, with either library and any option, changes the calibrator, its atlas, the spectrum or the arguments given, so every later result is the same as without the plot. Every plot can be made as soon as its data is available (a spectrum for the arc spectrum, a fit for the fit and the search space, a line of each element for the calibration lines).",
 ["histories","configurations"],"every interleaving of plots with configuration, fitting and matching",
 "tests draw plots at the end and look at nothing afterwards",
 ["plotting.py","calibrator.py"],[("plotting functions receive the calibrator","plotting.py")],obs=["full state before and after"])
p("L02","A plot writes exactly the files requested",
 "A plot writes a file for each recognised image type requested, under the requested name (or the documented default), and nothing else; without the save option it writes nothing. The json string is returned exactly if it was requested with the plotly library, and the plot is displayed once exactly if asked for (plotly may leave that out if it returns the json string).",
 ["configurations","inputs"],"every plot function, library, set of image types and file name",
 "tests save single types and do not check which files exist",
 ["plotting.py"],[("save_fig/fig_type handling","plotting.py")],obs=["files in a scratch directory","return value"])
p("L03","A plot shows the current data and solution",
 "The arc plot shows the spectrum at its pixels relative to its maximum (or its logarithm) with the detected peaks marked; the plot of a fit shows it at the wavelengths of the given solution, with the solution curve, each fitted peak on the curve at its pixel with its residual, and the peaks and atlas lines marked. The search-space plot shows all peak-line pairs, the candidate pairs and the best of them, the wavelength limits with their tolerance and the given solution over axes labelled pixel and wavelength, and the calibration-line plot shows exactly the selected lines of each element with their intensities. The figure is drawn with the library chosen.",
 ["histories","configurations","inputs"],"every plot function, library, option and state of the calibrator",
 "tests draw plots without looking at what is drawn",
 ["plotting.py","calibrator.py"],[("plot_arc / plot_fit / plot_search_space / plot_calibration_lines","plotting.py"),("Calibrator plot methods choose the library","calibrator.py")],obs=["traces and artists of the figures drawn"])
p("U01","Peak refinement is local, unique and independent per peak",
 "Refining peaks returns, in the same order, for each peak (given as a whole pixel) whose window fits a line its sub-pixel position, which depends only on the spectrum within its window: a clean line alone in its window, within a third of the window of its centre, is located at its centre wherever it lies on the detector, including near the edges and close to other windows, for any scale and numeric type of the spectrum. Peaks off the detector or with less than three pixels in the window are dropped, no position off the detector is returned and peaks refined to the same position are returned once.",
 ["inputs"],"every spectrum of separated lines, peak list and window width",
 "one test with well separated peaks away from the edges",
 ["util.py"],[("refine_peaks","util.py")],obs=["refine_peaks() return value"])
p("S01","The synthetic spectrum inverts its current model within its limits",
 "The pixels returned are the positions at which the model set last predicts the requested wavelengths, for exactly the wavelengths strictly between the limits set last, in the given order; a constant model gives its constant. The coefficients of a linear model are taken lowest order first, those of higher models highest order first. A rejected limit or model changes nothing, and a limit not given is kept.",
 ["histories","inputs"],"every sequence of model and limit changes and queries, for constant, linear and higher models",
 "tests use one model per object",
 ["synthetic.py","models.py"],[("set_model/set_wavelength_limit/get_pixels","synthetic.py")],obs=["get_pixels()"])
p("N01","The air refractive index and vapour pressure formulas are numerically right",
 "The conversion from vacuum to air divides by the refractive index of the published modified Edlen equations for every wavelength, pressure, humidity and temperature (not below freezing unless dry), and the conversion from air to vacuum is its inverse to their stated accuracy of 5e-8. The vapour pressure is the published one of saturated air scaled by the relative humidity.",
 ["inputs"],"every wavelength and atmospheric condition in the range of validity",
 "a test compares one number",
 ["util.py"],[("edlen_refraction, get_vapour_pressure","util.py")],obs=["air_to_vacuum_wavelength()"])
p("N02","A fit recovers the true dispersion of a plausible spectrum",
 "For a spectrum whose peaks come from a smooth dispersion within the configured limits and an atlas containing its lines, the fit finds the true solution to within the line position error with high probability.",
 ["inputs","schedules"],"every dispersion, atlas and noise realisation within the limits",
 "tests check a few spectra with one seed",
 ["calibrator.py"],[("RANSAC fit","calibrator.py")],obs=["fit() accuracy"])
out=os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","properties.jsonl")
with open(out,"w") as f:
    for x in P:
        assert len(x["title"])<=80,(x["id"],len(x["title"]))
        f.write(json.dumps(x)+"\n")
print(len(P))
