#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one place to edit the property texts)."""
import json, os
M = "micropolarray/"
P = []
def p(id, title, statement, over, text, why, files, mech, observe=None, state=None):
    d = dict(id=id, title=title, statement=statement,
             quantifier=dict(over=over, text=text), why_tests_cant=why,
             anchors=dict(files=[M+f for f in files],
                          mechanism=[dict(name=n, where=M+w) for n, w in mech]))
    if observe: d["anchors"]["observe_at"] = observe
    if state: d["anchors"]["state"] = [dict(name=a, meaning=b, where=M+c) for a, b, c in state]
    assert len(title) <= 80, (id, len(title))
    P.append(d)

p("C01", "Splitting and merging polarizations is a lossless pixel bijection",
  "Splitting an even-sided micropolarizer array into its four single-polarization images puts pixel (2y+j, 2x+i) at (y, x) of image 2j+i with its value unchanged, and merging four equally shaped images is the exact inverse in both directions. An array with an odd side is rejected with an error instead of being silently truncated.",
  ["inputs"], "every even shape up to the bound (square and not), every pixel value and stored number type",
  "The tests only split one 16x16 mosaic whose superpixels are all 1,2,3,4, so a transposed, cropped or swapped position can cancel out; the claim is over all values and all shapes.",
  ["processing/demosaic.py", "micropol_image.py"],
  [("split_polarizations", "processing/demosaic.py"), ("merge_polarizations", "processing/demosaic.py")],
  ["MicropolImage.single_pol_subimages", "merge_polarizations()"])
p("C02", "Stokes images follow the declared micropolarizer orientations",
  "For every image and every assignment of the orientations 0, 45, -45, 90 to superpixel positions, I is half the sum of the four pixels of the superpixel, Q is the 0-degree minus the 90-degree pixel and U the 45-degree minus the -45-degree pixel. The single-orientation images report the pixels of that orientation, and the assignment used is the one given to the image, else the configured default.",
  ["inputs", "configurations"], "all 24 orientation assignments, all pixel values, all stored number types (unsigned 8/16, signed 16/32, float), all even shapes within the bound",
  "Tests check two of the 24 assignments on a constant mosaic of small floats; sign, wrap-around in unsigned types and position mix-ups need arbitrary values and assignments.",
  ["micropol_image.py", "processing/demosaic.py"],
  [("MicropolImage._get_theo_Stokes_vec_components", "micropol_image.py"), ("pol0/pol45/pol_45/pol90", "micropol_image.py"), ("set_default_angles", "micropol_image.py")],
  ["MicropolImage.I/Q/U/pol0/pol45/pol_45/pol90"])
p("C03", "pB, DoLP and AoLP are the right functions of the Stokes vector",
  "Polarized brightness is sqrt(Q^2+U^2), the degree of linear polarization is that over I (and exactly 0 where I is 0), and the angle of linear polarization is half the quadrant-correct angle of (Q, U), always in (-90, 90] degrees. The values reported by an image are those functions of its current Stokes images.",
  ["inputs"], "all real Stokes values including zero intensity, zero Q or U and every quadrant",
  "The tests evaluate two Stokes vectors and one sweep of angle; quadrant, sign and zero-denominator cases are not separated.",
  ["polarization_functions.py", "micropol_image.py"],
  [("AoLP/DoLP/pB", "polarization_functions.py"), ("MicropolImage.pB/AoLP/DoLP", "micropol_image.py")],
  ["MicropolImage.pB/AoLP/DoLP"])
p("C04", "Malus response and the ideal polarimeter invert each other",
  "The polarizer response is t/2 (1 + e cos 2(angle - phase)): it never leaves [0, t] for t and e in [0, 1] and is unchanged by half turns. An image synthesized with that response at 0, 45, -45 and 90 degrees for light of signal S polarized at an arbitrary angle gives back I = S t, Q = S t e cos(2 angle) and U = S t e sin(2 angle).",
  ["inputs"], "all angles, phases, transmittances and efficiencies (symbolic sine and cosine on the unit circle), all signals",
  "The only test sweeps 63 angles at one transmittance and efficiency with 1-decimal rounding.",
  ["processing/demodulation.py", "micropol_image.py"],
  [("Malus", "processing/demodulation.py"), ("MicropolImage._get_theo_Stokes_vec_components", "micropol_image.py")],
  ["Malus()", "MicropolImage.I/Q/U"])
p("C05", "Image arithmetic is pixel by pixel and keeps polarization in step",
  "Adding, subtracting, multiplying or dividing images of equal shape, or an image and a number, gives exactly the pixel-by-pixel result (for pixel types wide enough to hold it) and leaves both operands unchanged; for micropolarizer images it comes with the Stokes images of that result and the first operand's orientation assignment and header cards. Where the divisor is zero the result is 0, never leftover memory.",
  ["inputs"], "all pixel values of both operands, zero divisors included, all four operators, plain and micropolarizer images, image and scalar right operands",
  "Tests use constant nonzero images; results at zero divisors come from uninitialized memory and cannot be settled by a sample.",
  ["image.py", "micropol_image.py"],
  [("Image.__add__/__sub__/__mul__/__truediv__", "image.py"), ("MicropolImage.__add__/__sub__/__mul__/__truediv__", "micropol_image.py")],
  ["result.data", "result.Stokes_vec", "result.header"])
p("C06", "Dark subtraction is clamped at zero for every pixel type",
  "Correcting an image with a dark frame yields max(pixel - dark, 0) at every pixel, whatever number type the two frames are stored in, and the Stokes images of the corrected data; the dark frame itself is unchanged. Passing the dark at construction and subtracting it afterwards give the same image.",
  ["inputs"], "all pixel and dark values over unsigned 8/16-bit, signed 16-bit and float storage, same and mixed",
  "The test subtracts a float frame from itself; underflow of unsigned camera frames needs pixel < dark in an integer type.",
  ["micropol_image.py"], [("MicropolImage.subtract_dark", "micropol_image.py"), ("MicropolImage.__init__", "micropol_image.py")],
  ["MicropolImage.data"])
p("C07", "Flat-field correction divides by the mean-normalized flat",
  "Correcting with a flat divides every pixel by flat/mean(flat), so a uniform flat changes nothing, rescaling the flat changes nothing, and correcting the flat itself gives a uniform image; pixels where the flat is 0 keep their uncorrected value. The flat image is unchanged, the Stokes images are those of the corrected data, and dark and flat given together act as dark first, then flat.",
  ["inputs"], "all pixel values, all flats of nonzero mean including zero pixels, float and unsigned 16-bit storage",
  "The test divides one constant image by one constant flat; zero flat pixels read uninitialized memory.",
  ["micropol_image.py"], [("MicropolImage.correct_flat", "micropol_image.py"), ("MicropolImage.__init__", "micropol_image.py")],
  ["MicropolImage.data"])
p("C08", "Operations that return a new image leave the original untouched",
  "Rebinning, shifting, rotating, resizing, demodulating, cleaning hot pixels, arithmetic and copying return a new image and leave every observable of the original (data, Stokes images, header cards, flags, demosaiced images) as it was. Later in-place changes of the copy (masking, dark, flat or ifov correction, demosaicing, header edits) never show through in the original, nor the other way round.",
  ["inputs", "histories"], "every image value, every operation returning a new image, followed by every in-place operation",
  "No test looks at the original after an operation; aliasing appears only in a later, second step.",
  ["image.py", "micropol_image.py"],
  [("MicropolImage._import_image_parameters", "micropol_image.py"), ("Image._init_image_from_image", "image.py"), ("MicropolImage.rotate", "micropol_image.py")],
  ["original.data/Stokes_vec/header after the call"])
p("C09", "Polarization parameters and header never go stale",
  "After any sequence of data-changing operations (dark, flat and ifov correction, rebinning, shifting, arithmetic, hot-pixel cleaning, demosaicing), the Stokes images equal those computed afresh from the current data, or from the demosaicing of the current data if the image is demosaiced. The reported height, width and header axis sizes always match the data.",
  ["histories", "inputs"], "all operation sequences up to the stated length over all pixel values",
  "Tests apply one operation to a fresh image; staleness needs a sequence such as demosaic then rebin.",
  ["image.py", "micropol_image.py"],
  [("MicropolImage._update_data_and_Stokes", "micropol_image.py"), ("Image.data setter", "image.py")],
  ["Stokes_vec", "height/width", "header NAXIS1/NAXIS2"],
  [("_is_demosaiced/demosaiced_images", "whether Stokes come from demosaiced images", "micropol_image.py")])
p("C10", "Superpixel binning sums each pixel family over whole blocks",
  "Binning a micropolarizer image by n gives, for each of the four pixel families, the sums of that family over n x n blocks of superpixels, so total signal per family over the kept area is conserved and the Stokes images of the binned image are the block sums of the original Stokes images. Binning by a and then b equals binning by a*b when the size allows both, and a non-positive binning is rejected.",
  ["inputs"], "all pixel values, all shapes and binnings within the bound, divisible or not",
  "Two binnings of a constant 16x16 mosaic cannot tell apart a shifted block or a mixed family.",
  ["processing/rebin.py", "micropol_image.py"],
  [("micropolarray_rebin/micropolarray_jitrebin", "processing/rebin.py"), ("MicropolImage.rebin", "micropol_image.py")],
  ["MicropolImage.rebin().data"])
p("C11", "Plain binning sums blocks, trimming only what cannot fill a block",
  "Binning a plain image by n gives the sums over n x n pixel blocks counted from the origin. For every height, width and binning, trimming for plain binning keeps the largest multiple of n not above each side, trimming for superpixel binning the largest multiple of 2n, and both always terminate.",
  ["inputs"], "all pixel values over bounded shapes; all integer heights, widths and binnings within the bound, odd ones included",
  "Tests bin one square divisible image; the trimming loops are never entered.",
  ["processing/rebin.py", "image.py"],
  [("standard_rebin/standard_jitrebin", "processing/rebin.py"), ("trim_to_match_binning", "processing/rebin.py"), ("trim_to_match_2xbinning", "processing/rebin.py"), ("Image.rebin", "image.py")],
  ["Image.rebin().data", "trim_to_match_binning()"])
p("C12", "Shifting translates every pixel exactly and fills the rest",
  "Shifting an image by (y, x) moves every pixel by exactly that amount, in plain pixels for plain images and in superpixels for micropolarizer images so that every value stays in its polarization family, and fills every uncovered pixel with the given value. It holds for positive, negative, zero and larger-than-image displacements on any side.",
  ["inputs"], "all displacements within and beyond the image, all pixel and fill values, all shapes within the bound",
  "Two displacements on a 4x4 image are tested.",
  ["processing/shift.py", "image.py", "micropol_image.py"],
  [("shift/shift_micropol", "processing/shift.py"), ("Image.shift", "image.py"), ("MicropolImage.shift", "micropol_image.py")],
  ["Image.shift().data", "MicropolImage.shift().data"])
p("C13", "Demosaicing yields each family's image by its documented rule",
  "Mean demosaicing gives each pixel of a superpixel one quarter of that family's pixel value, so the four quarters add up to the original signal. Adjacent demosaicing gives the bilinear interpolation of the family's superpixel grid towards the next superpixel down and right, repeating the last superpixel at the far borders, so outputs never leave the range of the family's values; the Stokes images are then computed from the demosaiced images at full resolution, and an unknown method is rejected.",
  ["inputs"], "all pixel values, all even shapes within the bound, both methods",
  "Tests demosaic a mosaic constant per family, for which every interpolation rule gives the same answer.",
  ["processing/demosaic.py", "micropol_image.py"],
  [("demosaicmean/demosaicadjacent/demosaic", "processing/demosaic.py"), ("MicropolImage.demosaic", "micropol_image.py")],
  ["MicropolImage.demosaiced_images", "demosaic()"])
p("C14", "Polar regions of interest keep exactly the pixels they describe",
  "A polar selection keeps a pixel unchanged exactly when its distance to the center is above the inner and not above the outer radius and its angle is in the requested range, and puts the fill value everywhere else; the boolean form is exactly that mask. In superpixel mode the decision is taken once per 2x2 superpixel on the half-size grid, so a superpixel is kept or dropped as a whole, and center and radii may be left out to mean the image center out to the nearest border.",
  ["inputs"], "all pixel and fill values, all radii and angle limits, all centers and shapes within the bound",
  "No test covers regions of interest.",
  ["processing/nrgf.py"], [("roi_from_polar", "processing/nrgf.py"), ("map_polar_coordinates", "processing/nrgf.py")],
  ["roi_from_polar()"])
p("C15", "Occulter masks blank the occulter and nothing else",
  "Masking the occulter of an image replaces the data, the Stokes images and any demosaiced images by the fill value inside the (over-occulted) occulter radius and leaves them unchanged outside it, up to whole superpixels. The camera's occulter mask and region are the complement of that disc out to the requested radius.",
  ["inputs"], "all pixel and fill values, occulter positions, radii and over-occulting within the bound, demosaiced or not",
  "No test covers masking.",
  ["micropol_image.py", "cameras.py", "processing/nrgf.py"],
  [("MicropolImage.mask_occulter", "micropol_image.py"), ("Camera.occulter_mask/occulter_roi", "cameras.py")],
  ["MicropolImage.data/Stokes_vec/demosaiced_images"])
p("C16", "The radial filter standardizes every ring by its own statistics",
  "In the filtered image every pixel of a ring is its value minus the ring's mean, divided by the ring's standard deviation, with both taken over the part of the ring in the averaging sector; pixels of a ring without spread, inside the starting radius or outside the output sector are 0. The result does not change when the image is scaled by a positive factor or offset by a constant.",
  ["inputs"], "all pixel values, with rings, sectors, centers, start radii and steps within the bound",
  "No test covers the filter.",
  ["processing/nrgf.py"], [("nrgf", "processing/nrgf.py")], ["nrgf()"])
p("C17", "Line selections run pixel by pixel from start to end inside the image",
  "A line selection between two pixels starts at the start pixel, ends at the end pixel, moves by at most one pixel in each direction per step without ever turning back, stays within one pixel of the straight segment, and returns the image value at each listed pixel. It works for every pair of distinct pixels of the image including its borders, and the polar form starts at the given center or inner radius and never lists a pixel outside the image.",
  ["inputs"], "all pairs of endpoints within the bound, all pixel values; polar form over all centers, the listed angles and radii",
  "No test covers line selections.",
  ["processing/linear_roi.py"], [("DDA", "processing/linear_roi.py"), ("linear_roi/linear_roi_from_polar", "processing/linear_roi.py")],
  ["linear_roi()", "linear_roi_from_polar()"])
p("C18", "Demodulation applies the tensor to each superpixel, theory where unfitted",
  "Demodulating an image gives, at every superpixel, the product of that superpixel's 3x4 demodulation matrix with its four pixel values in position order, or the theoretical Stokes values where the calibration fit was not found; without fit flags the tensor is used everywhere. With demosaicing the same holds at full resolution with each matrix and flag repeated over its 2x2 superpixel, and a tensor inverting the instrument's modulation returns exactly the incoming Stokes vector.",
  ["inputs"], "all pixel values, all tensors, all flag patterns, with and without demosaicing and flags, all shapes within the bound",
  "Tests demodulate images that are constant over all superpixels with a tensor constant over all superpixels and all flags set.",
  ["micropol_image.py", "processing/demodulation.py"],
  [("MicropolImage.demodulate/_get_Stokes_from_demodulator", "micropol_image.py")],
  ["demodulated.I/Q/U"])
p("C19", "Calibration is local, order-free and independent of parallelization",
  "Each superpixel's demodulation matrix, fit flag, parameters and covariances depend only on the normalized, dark- and flat-corrected calibration values at that superpixel, whatever the worker grid, and are written at that superpixel's position; listing the calibration files in another order (with their angles) changes nothing. A worker grid that cannot tile the image is refused rather than leaving part of the tensor unset, and occulted, dead or unfittable superpixels get the theoretical matrix and a cleared flag.",
  ["inputs", "configurations", "schedules"], "all calibration pixel values, all worker grids and file orders within the bound, every pattern of failed fits and occulted superpixels",
  "One uniform 20x20 set with one 2x2 grid and one order is tested, where misplaced chunks are indistinguishable.",
  ["processing/demodulation.py"],
  [("calculate_demodulation_tensor", "processing/demodulation.py"), ("compute_demodulation_by_chunk", "processing/demodulation.py")],
  ["M*.fits and parameter files in the output directory"])
p("C20", "A demodulator reads back exactly what calibration stored",
  "Loading a calibration folder puts the file for row i and column j at tensor position (i, j), likewise for the covariances, with flags, transmittances, efficiencies and phases as stored, whatever order the folder lists them in and whatever unrelated files it holds. A missing folder, an empty folder or an incomplete set of matrices raises an error instead of yielding a partly filled tensor.",
  ["inputs", "fault_sequences"], "all tensor values, every single missing file, permuted directory listings",
  "Tests load one complete folder in one listing order and never a damaged one.",
  ["processing/demodulation.py"],
  [("Demodulator._get_demodulation_tensor", "processing/demodulation.py"), ("Demodulator.Cij/eff/tk/phi", "processing/demodulation.py")],
  ["Demodulator.mij/fit_found_flags/Cij/eff/tk/phi"])
p("C21", "Orientations recovered from a calibration match the fitted phases",
  "Whenever the four families' mean fitted phases lie within the fit's tolerance of 15 degrees of some arrangement of 0, 45, -45 and 90 degrees (modulo 180), the demodulator reports exactly that arrangement, one family per orientation.",
  ["inputs"], "all 24 arrangements, all real phase deviations up to the tolerance, 90 fitted as -90 included",
  "One arrangement at exact phases is tested.",
  ["processing/demodulation.py", "utils.py"],
  [("Demodulator.angle_dic", "processing/demodulation.py"), ("normalize2pi", "utils.py")],
  ["Demodulator.angle_dic"])
p("C22", "Rebinning, rotating and flipping a demodulator keep it consistent",
  "Rebinning a demodulator averages every one of its twelve matrices over blocks and returns a new object, leaving the original unchanged and rejecting sizes that would not stay even; rotating by quarter turns or flipping moves all twelve matrices and the fit flags together, so each position keeps its own matrix and flag.",
  ["inputs"], "all tensor and flag values, all quarter turns, both axes, shapes and binnings within the bound",
  "One test rebins a constant tensor; rotation and flips are untested.",
  ["processing/demodulation.py"], [("Demodulator.rebin/rot90/flip", "processing/demodulation.py")],
  ["Demodulator.mij/fit_found_flags"])
p("C23", "Error propagation follows the first-order variance of each parameter",
  "Given per-pixel errors, the reported errors of I, Q and U are the square roots of the squared demodulation matrix times the squared pixel errors of that superpixel, and those of pB, DoLP and AoLP are the first-order propagation of the Stokes errors through their definitions. They are defined at every superpixel with nonzero intensity and polarization, including those with Q = 0 or U = 0, and scale linearly with the pixel errors.",
  ["inputs"], "all Stokes values with I and Q^2+U^2 nonzero, all errors, all tensors",
  "No test covers the error class.",
  ["processing/demodulation_errors.py"],
  [("get_error_on_Stokes/pB/DoLP/AoLP", "processing/demodulation_errors.py"), ("MicropolImageError", "processing/demodulation_errors.py")],
  ["MicropolImageError.sigma_*"])
p("C24", "Field-of-view and Chen-Wan-Liang corrections act per family and superpixel",
  "Field-of-view correction replaces each pixel outside the first superpixel row and column by the mean of the four same-family pixels of its superpixel and the preceding ones, and clears that first row and column. The Chen-Wan-Liang correction first replaces each superpixel by its 4x4 correction matrix times the pixel values minus the offsets, then applies that, with the same result whether the image is stored as integers or floats.",
  ["inputs"], "all pixel values, matrices and offsets, integer and float storage, shapes within the bound",
  "No test covers either correction.",
  ["processing/chen_wan_liang_calibration.py", "micropol_image.py"],
  [("_ifov_jitcorrect", "processing/chen_wan_liang_calibration.py"), ("chen_wan_liang_calibration", "processing/chen_wan_liang_calibration.py"), ("MicropolImage.correct_ifov", "micropol_image.py")],
  ["MicropolImage.correct_ifov().data", "chen_wan_liang_calibration()"])
p("C25", "Saved FITS files hold exactly the images they are named after",
  "Saving an image, one or all polarization parameters, the four single-orientation images or the four demosaiced images writes, for each, a separate file whose name and header identify the parameter or orientation it holds and whose data are exactly those values, with the image's header cards kept. A requested value range is applied as a clamp to [min, max] for any limits including zero and negative ones, leaves the image in memory unchanged, and a name that is not a .fits file is refused.",
  ["inputs", "configurations"], "all pixel values, all orientation assignments, all clamp limits min <= max",
  "Tests write a constant mosaic and never read the parameter files or clamped data back.",
  ["image.py", "micropol_image.py", "utils.py"],
  [("Image.save_as_fits", "image.py"), ("save_single_pol_images/save_param_as_fits/save_all_pol_params_as_fits/save_demosaiced_images_as_fits", "micropol_image.py"), ("fix_data", "utils.py")],
  ["files on disk"])
p("C26", "Loading files returns their data; several files their mean or sum",
  "Loading one FITS file gives its pixel values and header unchanged; loading a list gives the pixel-by-pixel mean of the files, or their sum if averaging is turned off, with no overflow of the stored type and independent of the list order, and records how many files were combined and the earliest and latest observation times. An empty list is an error.",
  ["inputs"], "all pixel values over unsigned 8/16, signed 16 and float files, lists up to the bound in any order, averaging on and off",
  "Tests load single float files only.",
  ["image.py"], [("Image._init_image_from_file", "image.py")], ["Image.data/header/filename"])
p("C27", "Packed 12-bit camera files decode to the documented pixel pairs",
  "Every three bytes of a PolarCam binary file decode to two 12-bit pixels, the first being byte 1 followed by the high half of byte 2, the second byte 3 followed by the low half of byte 2. A whole file decodes to the pixels in file order for every content, wherever its zero bytes fall.",
  ["inputs"], "all byte triples; whole files with arbitrary bytes at every chunk boundary",
  "No test covers raw decoding; the failing contents (dark pixels at chunk ends) are rare.",
  ["processing/convert.py"], [("three_bytes_to_two_ints", "processing/convert.py"), ("nparr_from_binary", "processing/convert.py")],
  ["nparr_from_binary()", "convert_set()"])
p("C28", "16-bit raw files convert losslessly and to the right place",
  "Converting a 16-bit raw file writes its little-endian unsigned pixels, in row order, to a FITS file of the same name beside it, with only the extension changed, however many dots the path contains; the raw file is removed only on request and only after the FITS file was written. Merging raw files writes their exact sum, or mean, whatever the order and however large the values, and saving an image as raw and converting it back preserves every 16-bit pixel value.",
  ["inputs", "crash_points"], "all byte contents, path shapes with dots in folders and names, a write failure at the output step, lists up to the bound",
  "No test covers raw conversion.",
  ["processing/convert.py", "image.py"],
  [("convert_rawfile_to_fits", "processing/convert.py"), ("merge_rawfiles_to_fits/average_rawfiles_to_fits", "processing/convert.py"), ("Image.save_as_raw", "image.py")],
  ["files on disk"])
p("C29", "Angle normalization lands in the half-open half turn, congruently",
  "Normalizing angles returns, for every input, the one angle in (-90, 90] degrees (or (-pi/2, pi/2] radians for arrays) that differs from it by a whole number of half turns; lists keep their order, a bare number becomes a one-element list, and normalizing again changes nothing. The array form leaves its input unchanged.",
  ["inputs"], "all real angles within the bound of half turns",
  "No test calls the normalizers directly; boundary values at exactly -90 and 90 decide.",
  ["utils.py", "polarization_functions.py"],
  [("normalize2pi/normalize2piarray", "utils.py"), ("normalize2pi", "polarization_functions.py")],
  ["normalize2pi()", "normalize2piarray()"])
p("C30", "Hot-pixel maps flag by contrast and cleaning touches only flagged pixels",
  "The hot-pixel map has a 1 exactly where a pixel's contrast to the median-filtered image of its own polarization family exceeds the threshold and 0 elsewhere. Cleaning with a map replaces exactly the pixels flagged 1 by that family's median-filtered value and leaves every other pixel as it was, with the Stokes images of the cleaned data.",
  ["inputs"], "all positive pixel values, thresholds and flag maps, shapes within the bound",
  "No test covers hot pixels.",
  ["processing/image_cleaning.py", "micropol_image.py"],
  [("get_hot_pixels", "processing/image_cleaning.py"), ("MicropolImage.clean_hot_pixels", "micropol_image.py")],
  ["get_hot_pixels().data", "MicropolImage.clean_hot_pixels().data"])
p("C31", "Keyword alignment reorients each family and keeps pointing consistent",
  "Aligning a square image transposes each polarization family about its anti-diagonal without mixing families, so aligning twice restores the data, and the header then states the data's size, the plate scale times the binning and the joined date and time; the reference pixel is the sun center scaled to the image size and counted from the far border.",
  ["inputs"], "all pixel values, all square sizes within the bound, all sun centers, plate scales and binnings",
  "No test covers keyword alignment.",
  ["utils.py"], [("align_keywords_and_data", "utils.py")], ["returned header and data"])
p("C32", "Resizing interpolates each family linearly on its own grid",
  "Resizing maps the corner pixels of every polarization family onto the new corners and interpolates linearly in between, separately per family: the same size gives the same image, constant and linear families stay constant and linear, and no value leaves the family's range. Odd target sizes are reduced to the next even ones, and the Stokes images are resized by the same rule.",
  ["inputs"], "all pixel values, old and new shapes within the bound",
  "One test resizes a mosaic constant per family.",
  ["processing/congrid.py", "micropol_image.py"], [("congrid", "processing/congrid.py"), ("MicropolImage.congrid", "micropol_image.py")],
  ["MicropolImage.congrid().data", "congrid()"])
p("C33", "Statistics and unit helpers obey their definitions",
  "The mean and median band helpers return the mean (median) plus or minus n standard deviations (median absolute deviations), so plus and minus are symmetric and shifting or scaling the data shifts or scales them; the photon-noise helper satisfies sigma^2 = signal / gain; the solar-brightness factor is inversely proportional to image exposure and diffuser signal and proportional to diffuser exposure.",
  ["inputs"], "all data values over bounded sizes, all band widths, all positive signals and exposures",
  "No test covers the helpers.",
  ["utils.py"], [("mean_minus_std/mean_plus_std/median_minus_std/median_plus_std", "utils.py"), ("sigma_DN", "utils.py"), ("get_Bsun_units", "utils.py")],
  ["return values"])
p("C34", "Calibration recovers the instrument, and its matrices undo it",
  "For noise-free Malus-law images of a polarimeter whose parameters lie inside the fit bounds, and a least-squares fit that finds the parameters explaining its data, the calibration stores the true transmittance, efficiency and phase (degrees) of every pixel and flags every superpixel as fitted, for any normalization, dark, binning, worker grid, order of the images and arrangement of the orientations; its matrices times the true modulation are the identity, so that light seen through this instrument comes back as its true I, Q, U when demodulated with the files of the calibration.  Parameters outside the bounds give no flag and the theoretical matrix.",
  ["inputs"], "all true parameters inside the fit bounds, all signals and normalizations",
  "One parameter triple is tested to two decimals.",
  ["processing/demodulation.py", "micropol_image.py"], [("calculate_demodulation_tensor, compute_demodulation_by_chunk, Demodulator", "processing/demodulation.py")], ["files of the calibration", "Demodulator.tk/eff/phi/mij", "MicropolImage.demodulate()"])
p("C35", "The occulter finders return the disc of an image that shows one",
  "On an image with one dark disc near its center and enough contrast, find_occulter_position returns its [y, x, radius] with the center to within a pixel and the radius to within two (by the threshold method for all values inside and outside the disc; by the sigmoid method given fits within 0.4 pixel of the edges), on rectangular images too; the threshold method raises ValueError where a side has no edge.  find_occulter_hough returns (y, x, radius) of the circle with the most votes within the radius limits when several are found.  The radial filter without a center uses the occulter found.  The image is not modified.",
  ["inputs"], "all values, all candidate circles; disc positions and radii as listed",
  "No test covers the finders.",
  ["processing/nrgf.py"], [("find_occulter_position/find_occulter_hough/nrgf", "processing/nrgf.py")], ["find_occulter_position()", "find_occulter_hough()", "nrgf()"])
p("C36", "Plots show the values they name",
  "Every plotting method draws exactly the data it names and leaves the image as it was: show() the mosaic, show_single_pol_images() and show_demo_images() each orientation's own pixels under a title naming that orientation, show_pol_params(), show_pol_param() and show_with_pol_params() the six polarization parameters, Demodulator.show() the twelve matrix elements in their place on the array of axes it returns.  Color limits given by the caller are used; without them show() spans the data and the I, Q, U and demosaiced images one standard deviation around their mean.  show_histogram() counts every pixel once per histogram: the whole image and, when split, each polarization family.",
  ["inputs"], "all pixel values, tensors and color limits, all orientation dictionaries",
  "No test draws anything.",
  ["image.py", "micropol_image.py", "processing/demodulation.py"], [("Image.show/show_histogram", "image.py"), ("MicropolImage.show_*", "micropol_image.py"), ("Demodulator.show", "processing/demodulation.py")],
  ["axes and figures returned"])
p("C37", "Chen-Wan-Liang calibration stores each superpixel's correction",
  "calculate_chen_wan_lian_calibration computes, for every superpixel and polarizer frame separately, the Stokes input from its four pixels by orientation, W and d from the pixel values times the pseudo-inverse of (S0, S1, S2, 1), and stores the mean over the frames of the ideal response times the pseudo-inverse of W in C00..C33 and of d in d_ij at that superpixel, whatever the order of the list, the arrangement of the micropolarizers, the number of polarizer angles and the storage type; frames are dark-subtracted without going below 0 and divided by the dark-subtracted flat over its maximum.  Lists of different lengths, fewer than four angles and lists without 0, 45, 90 and -45 degrees are refused with nothing written.",
  ["inputs"], "all values of the pixels under study, all arrangements, orders as listed",
  "No test covers this calibration.",
  ["processing/chen_wan_liang_calibration.py"], [("calculate_chen_wan_lian_calibration", "processing/chen_wan_liang_calibration.py")], ["files C00..C33.fits, d_ij.fits"])
out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for d in P: f.write(json.dumps(d) + "\n")
print(len(P), "properties")
