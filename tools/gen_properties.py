"""Writes /verif/properties.jsonl (one place to edit statements)."""
import json, os
A="src/rascal/atlas.py"; U="src/rascal/util.py"; C="src/rascal/calibrator.py"; H="src/rascal/houghtransform.py"; M="src/rascal/models.py"; P="src/rascal/plotting.py"; S="src/rascal/synthetic.py"
L=[]
def prop(id,title,statement,over,text,why,files,mech,observe=None,state=None):
    assert len(title)<=80,(id,len(title))
    anchors={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: anchors["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    if observe: anchors["observe_at"]=observe
    anchors["hook_needed"]=None
    L.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":anchors})

prop("C01","Line selection returns exactly the lines that were asked for",
 "Loading arc lines for a set of elements returns exactly those entries of the line list whose element is requested (a name in any letter case, one name or several), whose wavelength, in the medium asked for, lies inside the closed requested window, and whose intensity reaches the requested minimum (one value for all or, when loading directly, one per element). Each returned line keeps its own wavelength, element and intensity together, the lines come back in ascending wavelength, and a request that matches nothing returns an empty result instead of failing. This holds for the built-in list, a user-supplied list file, and an atlas built from either, where an unspecified window means the atlas window widened by its range tolerance.",
 ["inputs","configurations"],"Every line list, element set, window, intensity threshold and medium.",
 "The tests load a few fixed element/window combinations of the built-in list and look at counts or that nothing raises; no test compares the returned set with the list itself.",
 [U,A,"src/rascal/arc_lines/nist_clean.csv"],[("load_calibration_lines",U),("filter_wavelengths",U),("filter_intensity",U),("Atlas.add",A)],
 ["rascal.util.load_calibration_lines return value","Atlas.get_lines/get_elements/get_intensities"])

prop("C02","Brightness and separation filters keep exactly the right lines",
 "When only the brightest N lines are requested, no dropped line is brighter than a kept one and N are kept if that many pass the other filters. When a minimum separation is requested, it is applied after the intensity and brightness filters and exactly the lines whose nearest remaining neighbour is closer than the separation are removed, so no two returned lines are closer than it and an isolated or single line always survives. A separation of zero removes nothing.",
 ["inputs","configurations"],"Every line list, N, separation, threshold and combination of the filters.",
 "Tests use the separation filter only through loads whose result is never inspected, and never combine it with the brightest-N limit that every atlas load applies.",
 [U,A],[("filter_separation",U),("load_calibration_lines brightest_n_lines/min_distance",U),("Atlas.add",A)],
 ["rascal.util.load_calibration_lines return value","Atlas.get_lines"])

prop("C03","An atlas is an ordered collection that every edit changes exactly as told",
 "After any sequence of additions (built-in elements, or user lines given as a scalar, list or array), range removals and clears, an atlas holds exactly the lines a plain list model holds, in the same order: a range removal deletes every line strictly closer than the tolerance to the given wavelength and no other, and a clear deletes all. Its length and its wavelength, element and intensity listings always describe the same lines in the same order, and user lines added without intensities have intensity zero. An addition whose inputs disagree in length, or whose window is not finite, is rejected and leaves the atlas unchanged, and separate atlases never share lines.",
 ["histories","inputs"],"Every sequence of atlas operations with arbitrary arguments.",
 "Tests perform one or two edits on one atlas; defects that depend on adjacent lines, earlier edits or rejected calls need arbitrary histories and a model.",
 [A,C],[("Atlas.add_user_atlas",A),("Atlas.remove_atlas_lines_range",A),("Atlas.clear/get_*",A)],
 ["len(atlas), get_lines(), get_elements(), get_intensities(), list()"],[("atlas_lines","ordered lines",A)])

prop("C04","Vacuum/air conversion follows the NIST refraction standard",
 "For every optical wavelength, air pressure, temperature and relative humidity, the vacuum-to-air and air-to-vacuum conversions agree with the NIST modified Edlen equation, including the humidity term computed from the saturation vapour pressure at that temperature. The two conversions undo each other to well below a milli-Angstrom, preserve the order of wavelengths, always give an air wavelength shorter than the vacuum one, and treat every element of a list or array exactly as it would the scalar, without altering the input. More pressure or a lower temperature always means a larger shift.",
 ["inputs"],"Every wavelength (2000-20000 Angstrom), pressure, temperature and humidity in the range of the standard, scalar, list or array.",
 "The tests compare a handful of wavelengths at fixed conditions with zero humidity, so the humidity path, other temperatures and the inverse relation are never examined.",
 [U],[("vacuum_to_air_wavelength / air_to_vacuum_wavelength",U),("edlen_refraction",U),("get_vapour_pressure",U)],
 ["rascal.util.vacuum_to_air_wavelength","rascal.util.air_to_vacuum_wavelength"])

prop("C05","Every way of adding lines honours the medium and the air conditions",
 "Lines taken from the line list are vacuum wavelengths: asked for in vacuum they are returned unchanged, otherwise each is converted to air at exactly the pressure, temperature and humidity supplied, whichever entry point is used. User-supplied lines are returned unchanged unless conversion is requested, in which case they are converted at the supplied conditions. The deprecated calibrator methods for adding lines produce the same lines as building an atlas with the same arguments.",
 ["inputs","configurations"],"Every combination of entry point, medium flag and conditions.",
 "Tests call most entry points once with default conditions, so a condition that is dropped, swapped or not forwarded by one of them goes unnoticed.",
 [A,U,C],[("Atlas.__init__ / add / add_user_atlas forwarding",A),("load_calibration_lines",U),("Calibrator.add_atlas / add_user_atlas",C)],
 ["Atlas.get_lines()","load_calibration_lines return value","calibrator.atlas.get_lines()"])

prop("C06","The Hough transform yields exactly the admissible lines",
 "For every set of pixel-wavelength points and every slope and intercept limit, the transform yields, for each evenly spaced slope in the closed slope range and each point, the straight line of that slope through that point if and only if its intercept is inside the limits, each such line exactly once. The brute-force variant yields exactly the lines through two of the points whose slope and intercept are strictly inside the limits. Limits that are not finite are rejected without changing the limits in force.",
 ["inputs","configurations"],"Every point set, number of slopes and limits.",
 "Tests run the transform on fixed data and check that something is produced, or one array size.",
 [H],[("generate_hough_points",H),("generate_hough_points_brute_force",H),("set_constraints",H)],
 ["HoughTransform.hough_points"])

prop("C07","Hough binning conserves every vote and ranks bins by votes",
 "Binning counts every Hough point in exactly one bin of a grid with the requested numbers of bins spanning the points, so the bin counts equal a direct count and sum to the number of points. The ranked list of candidate lines contains every bin exactly once, as the slope and intercept of the bin's centre, in non-increasing order of votes. Merging further points, from an array or another transform, keeps all existing points and appends all new ones, and rejects anything else without changing the points.",
 ["inputs","histories"],"Every point cloud, grid size and sequence of merges and binnings.",
 "Tests bin one data set and never recount the votes or examine the ranking.",
 [H],[("bin_hough_points",H),("add_hough_points",H)],["HoughTransform.hist, xedges, yedges, hough_lines, hough_points"])

prop("C08","Saving and loading a Hough transform loses nothing",
 "Writing a Hough transform in any supported format (one or both at once, with any delimiter, binned or not) and reading it back, directly or through a calibrator, restores the same points, histogram, bin edges, limits and ranked candidate lines, in a form every later operation accepts. Asking for the data in memory returns the same content and writes no file, whether asked of the transform or of the calibrator. A calibrator that has loaded a transform uses it for its next fit instead of computing another, and an unknown format is rejected.",
 ["inputs","histories","configurations"],"Every transform content, format, file name and save/load sequence.",
 "Tests save and load one binned transform and only check that the calls return.",
 [H,C],[("HoughTransform.save / load",H),("Calibrator.save_hough_transform / load_hough_transform",C)],
 ["files written","attributes after load","return value with to_disk=False"])

prop("C09","The search space always covers the declared calibration range",
 "After any sequence of configuration calls, the allowed intercepts are the declared minimum wavelength plus or minus the range tolerance, and the allowed slopes span exactly what the declared range, range tolerance and linearity tolerance permit over the current pixels, so every straight solution whose end wavelengths are within the range tolerance of the declared ones is inside the search space. The pixels are those last supplied: an explicit pixel list, else the number of pixels, else the spectrum length, else slightly more than the highest peak. A setting not mentioned in a call keeps its previous value.",
 ["histories","configurations","inputs"],"Every sequence of property-setting calls with any subset of arguments.",
 "Tests set each property once on fixed values; coverage of tolerated solutions and dependence on call order are never tested.",
 [C],[("set_hough_properties min/max slope/intercept",C),("set_calibrator_properties num_pix/pixel_list",C)],
 ["min_slope, max_slope, min_intercept, max_intercept, num_pix, pixel_list"])

prop("C10","Peak-line pairs are complete, and restricted only by the declared region",
 "After any sequence of atlas edits made through the calibrator and of configuration changes, the pairs considered are every combination of a detected peak with a line currently in the atlas; with the polygon constraint on, exactly those combinations inside the declared quadrilateral remain. Adding an atlas, adding user lines, removing a range, clearing, or changing the wavelength range takes effect on the pairs at once. A fit therefore never matches a line that is no longer in the atlas and can match any line that is.",
 ["histories","inputs","configurations"],"Every sequence of atlas edits and configuration changes.",
 "Tests never look at the pairs after an edit, and edit at most once.",
 [C,A],[("_generate_pairs",C),("set_atlas / remove_atlas_lines_range / clear_atlas / add_user_atlas",C)],
 ["calibrator.pairs","matched_atlas after fit"],[("pairs","candidate (pixel, wavelength) pairs",C)])

prop("C11","Candidate matches are the well-supported pairs near the Hough lines",
 "For each Hough line, the candidates used by a fit are exactly the peak-line pairs whose wavelength is within the candidate tolerance of that line. For each peak, the wavelengths offered to the solver are distinct lines that were candidates for that peak, at most the requested number, and none left out has more (weighted) support than one kept. With a non-linear guess, the candidates are the pairs within the tolerance of copies of the guess shifted within the range tolerance.",
 ["inputs","configurations"],"Every set of peaks, lines, tolerances, weights and limits.",
 "Tests check only that a fit ran; the candidate sets are intermediate data nobody compares with a direct computation.",
 [C],[("_get_candidate_points_linear",C),("_get_most_common_candidates",C)],
 ["calibrator.candidates, candidate_peak, candidate_arc after fit"])

prop("C12","A returned fit is internally consistent",
 "Whenever a fit returns, it gives the requested number of coefficients; every matched peak is one of the supplied peaks and every matched wavelength is in the atlas, each used at most once; and the residuals are those of the returned coefficients at the matched pairs, limited to the inlier tolerance, with the reported error their root mean square. The utilisation figures are the matched count divided by the number of peaks and by the number of lines, within zero and one. The calibrator's stored results equal the returned ones, and if no acceptable solution exists the fit fails explicitly.",
 ["inputs","configurations"],"Every peaks/atlas/configuration combination on which a fit returns.",
 "Tests assert that the error is small on fixed examples; they never recompute the returned quantities.",
 [C],[("_solve_candidate_ransac",C),("_match_bijective",C),("fit",C)],
 ["fit() return values and the same-named attributes"])

prop("C13","A fit only accepts solutions that meet the user's constraints",
 "A fit never returns a solution with fewer matches than the requested minimum (capped at the number of peaks and of lines), with a smaller share of peaks matched than the requested utilisation, or with an error below the requested minimum fit error. Unless an initial solution was supplied, no matched pair lies further than the inlier tolerance from a sample solution that increases over the detected peaks and, for a power series, starts within the allowed intercepts, and the coefficients are the robust fit of the returned matches. A call with an invalid constraint value is rejected and leaves all settings in force.",
 ["inputs","configurations"],"Every combination of constraints and data, including unsatisfiable ones.",
 "Tests set one loose constraint on clean data, for which ignoring it would give the same answer.",
 [C],[("_solve_candidate_ransac acceptance tests",C),("set_ransac_properties",C)],
 ["fit() return values, AssertionError when nothing is acceptable"])

prop("C14","Fits are reproducible",
 "With the same seed, data and configuration, a fit gives bit-identical results, in the same process after any earlier work or in another calibrator. Plotting, listing, saving, reading pairs or setting an empty list of known pairs in between never changes the outcome, and an exhaustive (brute-force) fit gives the same outcome for every seed. Calibrators never influence each other except through the shared random generator.",
 ["histories","configurations","inputs"],"Every data set, seed and interleaving of unrelated calls.",
 "Tests seed nothing or fit once, so hidden state between calls is invisible to them.",
 [C],[("np.random seeding in set_calibrator_properties",C),("fit / _solve_candidate_ransac",C)],
 ["fit() return values"])

prop("C15","An easy, well-posed arc is solved correctly",
 "When the detected peaks are images of atlas lines under a smooth, nearly linear dispersion inside the declared range, with sub-tolerance noise, some missing lines and some spurious peaks, and the number of tries is ample, the fit recovers the true dispersion to within the noise over the covered pixels and matches true peaks to their true lines, and this for every polynomial degree that can represent the dispersion. Shifting the pixel numbering by less than the range tolerance allows, or listing the peaks or atlas lines in another order, does not change whether it is solved.",
 ["inputs","configurations"],"All synthetic instruments from a stated family of easy instances; success is judged on the rate over the family.",
 "Tests try about ten fixed spectra, with tolerances wide enough to hide degraded recovery.",
 [C,H,M],[("do_hough_transform",C),("_solve_candidate_ransac",C),("robust_polyfit",M)],
 ["fit() return values versus ground truth"])

prop("C16","A fit does a bounded amount of work and always ends",
 "For every input, including exact data, peaks on a regular grid, unsatisfiable constraints and fewer peaks than the sample size, a fit ends, either with a solution or with an explicit failure, after drawing a number of samples bounded by a fixed multiple of the requested number of tries. An exhaustive fit examines every combination at most once. No valid input makes it end with an internal error.",
 ["inputs","configurations"],"Every peaks/atlas/configuration combination.",
 "A test can show that one input ends; the endless retry and the internal errors need inputs such as noiseless or gridded peaks that no test contains.",
 [C],[("_solve_candidate_ransac sampling loop",C)],
 ["number of sample fits evaluated","exceptions raised by fit()"])

prop("C17","A supplied initial solution is never made worse",
 "When a fit is given an initial solution, it returns either a solution that scores at least as well as the initial one by the fit's own measure, or the initial solution itself, with its matches, when no sample outperforms it; the degree of the returned solution is that of the initial one. In particular an initial solution that is exact on the data is not replaced by one that matches fewer peaks.",
 ["inputs","configurations"],"Every data set and initial solution, good or bad.",
 "Tests pass an initial solution once, and check only that a fit is returned.",
 [C],[("fit fit_coeff argument",C),("_solve_candidate_ransac initial cost",C)],["fit(fit_coeff=...) return values"])

prop("C18","Known pairs anchor every sample and are validated",
 "Every sample solution evaluated by a fit includes all known pixel-wavelength pairs the user has set, and only the last set ones. Pairs may be given as a number, list or array; inputs of different length, or containing anything that is not a number, are rejected and leave the previously set pairs in force. Known pairs steer the solution but never appear among the matches unless they are themselves detected peaks and atlas lines.",
 ["histories","inputs"],"Every sequence of known-pair settings and fits.",
 "Tests set pairs and check a return value; that each sample contains them is unobserved.",
 [C],[("set_known_pairs",C),("_solve_candidate_ransac known-pair insertion",C)],
 ["pix_known / wave_known","arguments of the sample polynomial fit","fit() results"])

prop("C19","Coefficients are expressed in the basis the user chose",
 "For a power, Legendre or Chebyshev fit, evaluating the returned coefficients in that basis reproduces the matched wavelengths with the reported error, and the three bases describe the same matches with the same wavelengths when fitted to the same data. An unknown basis is rejected.",
 ["inputs","configurations"],"Every data set, degree and basis.",
 "Tests only check that a fit in the other bases returns.",
 [C,M],[("fit fit_type",C),("robust_polyfit basis",M)],["fit() return values evaluated with numpy's basis functions"])

prop("C20","Re-matching all peaks to a solution is sound and complete",
 "Re-matching detected peaks against a given solution matches exactly those peaks that have an atlas line closer than the tolerance to the predicted wavelength (a peak is left out only if all such lines are taken by other peaks), each to such a line and no line twice, also when several lines are within reach. Without refitting it returns the given coefficients unchanged; with refitting it returns the robust fit of the requested degree to the matches. The residuals, error and utilisation figures are those of the returned coefficients and matches.",
 ["inputs","configurations"],"Every solution, atlas density, tolerance and degree (the experimental refine option is outside the property).",
 "The tests re-match sparse atlases with the default options, where every peak has one line in reach.",
 [C],[("match_peaks",C)],["match_peaks() return values"])

prop("C21","Manual editing of matches behaves like editing a sorted list",
 "After a fit, adding a pixel-wavelength pair, anywhere and before or after other edits, inserts exactly that pair and keeps the matches in ascending pixel order when they were; removing a position removes exactly that pair; the listing always shows positions, pixels and wavelengths in step. A manual refit of the given degree returns the robust fit of the current pairs, with residuals and error of exactly those pairs, independently of the previous solution, and stores them. A removal of a position that does not exist is rejected and changes nothing.",
 ["histories","inputs"],"Every sequence of add, remove, list and refit operations.",
 "Tests add and remove one pair once, in the one position and state where that works.",
 [C,M],[("add_pix_wave_pair / remove_pix_wave_pair / get_pix_wave_pairs",C),("manual_refit",C)],
 ["matched_peaks, matched_atlas, get_pix_wave_pairs(), manual_refit() return values"])

prop("C22","The robust polynomial fit is a correct, scale-free least-squares fit",
 "For well-conditioned data with small noise, the robust fit of degree n returns n+1 coefficients, lowest order first, equal to the ordinary least-squares solution, and recovers an exact polynomial of that degree exactly. Its predictions follow any rescaling of pixels or wavelengths and do not depend on the order of the points or on the starting coefficients, and one gross outlier moves it far less than it moves ordinary least squares. The inputs are not modified.",
 ["inputs"],"Every well-conditioned data set, degree 1 to 5, scale, order, and starting point.",
 "Tests fit one or two fixed polynomials from the default starting point.",
 [M],[("robust_polyfit",M),("normalise_input",M),("poly_cost_function",M)],["rascal.models.robust_polyfit return value and arguments"])

prop("C23","The synthetic spectrum generator inverts its model",
 "For every strictly increasing dispersion, the generator returns the pixel positions at which the current model takes the given wavelengths, for exactly those wavelengths strictly inside the current limits, in the given order and together with them. Changing the model or the limits, in any order and any number of times, takes effect for every later request, and an invalid model, limit or request is rejected and leaves the previous state in force. The polynomial model it builds evaluates, element by element, to the polynomial with the given highest-order-first coefficients.",
 ["histories","inputs"],"Every dispersion of degree one to five, sequence of settings and wavelength set.",
 "Tests query fixed models once; the inverse relation and re-configuration are not checked.",
 [S,M],[("SyntheticSpectrum.get_pixels / set_model / set_wavelength_limit",S),("polynomial",M)],
 ["get_pixels() return values","model(x)"])

prop("C24","Peak refinement finds the true centres",
 "Given a noiseless spectrum of well-separated Gaussian lines and starting positions within a few pixels of their centres, refinement returns each line's true centre to a small fraction of a pixel, wherever the line sits (also near either end), whatever the spectrum's scale and number type, and whether the starts are integers or fractions. Starts that lead to the same line yield it once, isolated bad pixels do not lose a line, every returned position is inside the spectrum, and the result for a line does not depend on the others. The caller's spectrum and peaks are not modified.",
 ["inputs"],"Every spectrum of well-separated Gaussian lines, start list and window.",
 "The test refines peaks of one fixed spectrum and compares counts.",
 [U],[("refine_peaks",U),("gauss",U)],["rascal.util.refine_peaks return value"])

prop("C25","Plots never change what they plot",
 "Drawing any plot, with either library and any options, leaves the calibrator, its spectrum, peaks, atlas, matches, and every argument passed by the caller exactly as they were, so that drawing it again gives the same figure. The plots accept any spectrum the calibrator accepts, list or array.",
 ["inputs","configurations","histories"],"Every plot function, option set, spectrum and library.",
 "Tests call the plots and discard the result; nothing compares state before and after.",
 [P,C],[("plot_fit / plot_arc / plot_search_space",P)],["calibrator attributes and arguments before and after"])

prop("C26","Plots show the data they claim to show",
 "The fit plot shows the spectrum against its calibrated wavelengths, and for the peaks marked as fitted the residual between their atlas line and their predicted wavelength together with their root mean square; the search-space plot shows all peak-line pairs, the candidate pairs, of each peak as many of its most supported lines as were asked for, the declared limits with their tolerance and the region between them and, if given, the solution, with pixels and wavelengths on the axes so labelled; the arc plot shows the spectrum normalised to its maximum (optionally in logarithm) against its pixels. What is shown lies within the range of its axes.",
 ["inputs","configurations"],"Every calibrator state, option set and library.",
 "Tests only check that the plots do not raise.",
 [P],[("plot_fit",P),("plot_search_space",P),("plot_arc",P)],["matplotlib artists","plotly JSON traces"])

prop("C27","Plot output options do what they say",
 "When saving is requested, exactly one non-empty file per requested and supported type is written under the given name (or the documented default), and none otherwise; a JSON string is returned exactly when asked for with the interactive library. A figure is displayed exactly when that is asked for, by the renderer chosen (the fit and the arc plot are not, when returned as a JSON string). The library used is always the one last selected, by either way of selecting it, and stays so across later configuration calls. The plot of expected arc lines labels exactly the lines passing its filters and draws all selected lines, for every built-in element, on the scale and in the medium asked for.",
 ["configurations","histories"],"Every plot, file type list, file name, library and selection history.",
 "Tests save one type at a time and never look at the files or at the library in use afterwards.",
 [P,C],[("save_fig / fig_type handling",P),("use_matplotlib / use_plotly / which_plotting_library",C),("plot_calibration_lines",P)],
 ["files written","return values","which_plotting_library()"])

prop("C28","Settings are sticky, independent and never corrupted",
 "After any sequence of configuration calls, each setting has the value last supplied for it, or its documented default if it never was, regardless of the order of calls and of values supplied for other settings. A call rejected because of an invalid constraint value leaves every setting as it was, and separate calibrators do not share settings. Running a fit changes the sample size only as far as needed to make that fit possible, and the match requirement only to cap it at what exists.",
 ["histories","configurations"],"Every sequence of configuration calls with any subset of settings.",
 "Tests set all values in one call and read them back once.",
 [C],[("set_calibrator_properties / set_hough_properties / set_ransac_properties",C)],
 ["calibrator attributes"])

prop("C29","Caller-owned data are never modified or retained",
 "No call modifies the peaks, spectrum, atlas, line arrays, coefficients, pixel lists or other objects its caller passes in, whether the call succeeds or fails. Changing the peaks or the spectrum after handing them to a calibrator has no effect on it, and results already returned to the caller are not changed by later calls.",
 ["histories","inputs"],"Every public call, argument and later history.",
 "Tests pass fresh literals and never look at them again.",
 [C,A,U,M,H,P],[("deepcopy in Calibrator.__init__",C),("copies in fit/manual_refit/robust_polyfit/refine_peaks",C)],
 ["arguments and earlier return values before and after each call"])

here=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here,"properties.jsonl"),"w") as f:
    for l in L: f.write(json.dumps(l)+"\n")
print(len(L))
