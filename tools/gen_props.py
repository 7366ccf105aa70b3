#!/usr/bin/env python3
"""Writes /verif/properties.jsonl from the table below (kept in one place so that ids stay stable)."""
import json, os
S = "src/ska-sdp-func/"
P = []


def p(id_, title, statement, over, text, why, files, mech, obs, state=None):
    a = {"files": [S + f for f in files], "mechanism": [{"name": n, "where": S + w} for n, w in mech],
         "observe_at": obs, "hook_needed": None}
    if state:
        a["state"] = state
    assert len(title) <= 80, title
    P.append({"id": id_, "title": title, "statement": statement, "quantifier": {"over": over, "text": text},
              "why_tests_cant": why, "anchors": a})


COV = ("sdp_phase_rotate*, sdp_dft*, sdp_weighting*, sdp_gridder_* in sdp_gridder_utils, sdp_degrid_uvw_custom, sdp_station_beam_aperture_array, "
       "sdp_element_beam_dipole, sdp_element_beam_spherical_wave_harp, sdp_gridder_clamp_channels_*, sdp_fft_norm, sdp_fft_phase, "
       "sdp_gridder_grid_correct_w_stack, sdp_vector_add and sdp_function_example_a")
p("C01", "Inconsistent inputs are rejected and leave every output untouched",
  "Each of these processing functions (" + COV + ") that is handed arrays whose number of dimensions, extents, element types, memory layout or "
  "memory location are not mutually consistent, or scalar parameters outside their documented range, reports an error. "
  "A call that reports an error has not modified any of the caller's arrays.",
  ["inputs"], "all combinations of ranks, extents, element types, strides, locations, null handles and scalar parameters",
  "Each test passes one or two hand-picked bad inputs (usually one wrong extent) to a few functions; the space of "
  "rank/extent/type/layout combinations is unbounded and most functions have no negative test at all.",
  ["utility/sdp_data_model_checks.c", "visibility/sdp_phase_rotate.cpp", "visibility/sdp_dft.cpp",
   "visibility/sdp_weighting.cpp", "grid_data/sdp_gridder_utils.cpp", "grid_data/sdp_gridder_direct.cpp"],
  [("shape, type, layout and location checks shared by the processing functions", "utility/sdp_data_model_checks.c"),
   ("per-function argument checks", "visibility/sdp_phase_rotate.cpp")],
  ["error status after the call", "contents of the output arrays"])
p("C02", "A call made with an error already pending does nothing",
  "Each of these processing functions (" + COV + ") that is entered with a non-zero error status returns without modifying any array and without "
  "changing that status, so the first error of a chain of calls is the one reported at its end.",
  ["inputs", "histories"], "every non-zero status value and every input, valid or not, of every function",
  "Tests call functions with a success status and inspect only the result; the chained-error path is taken by almost no test.",
  ["utility/sdp_mem.cpp", "utility/sdp_data_model_checks.c", "visibility/sdp_dft.cpp", "visibility/sdp_flagger.cpp"],
  [("status test at entry", "visibility/sdp_dft.cpp"), ("status test in the shared checks", "utility/sdp_data_model_checks.c")],
  ["error status after the call", "contents of the caller's arrays"])
p("C03", "Every memory access stays inside the arrays the caller passed",
  "For every input one of these processing functions (" + COV + ") accepts, and for every input it rejects, each read and write it makes lies inside "
  "the array it belongs to, has that array's element type, goes to host memory, and never writes an array passed as read-only. "
  "It performs no integer division by zero, and every temporary it allocates is released exactly once.",
  ["inputs"], "all accepted and rejected array extents, strides, types and values",
  "An out-of-range access at an unusual extent (empty axis, odd size, coordinate at the edge of the grid) usually reads "
  "neighbouring heap memory silently, and the suite does not run under a sanitizer.",
  ["visibility/sdp_weighting.cpp", "visibility/sdp_flagger.cpp", "grid_data/sdp_gridder_utils.cpp",
   "grid_data/sdp_gridder_wtower_uvw.cpp", "grid_data/sdp_degrid_uvw_custom.cpp"],
  [("bounds implied by the argument checks and by the in-loop range tests", "visibility/sdp_weighting.cpp"),
   ("skipping of visibilities outside the sub-grid", "grid_data/sdp_gridder_wtower_uvw.cpp")],
  ["memory accesses of the library"])
p("C04", "Array descriptors describe exactly the memory they own",
  "An array created by the library reports the element count, extents, strides, contiguity, type and location its creation "
  "parameters imply, owns cleared memory of exactly the product of its extents times its element size, and its memory is "
  "released exactly once, when its last reference is dropped. Wrappers, aliases and slices never own or release memory; a "
  "slice describes exactly the elements of its parent it names and is refused unless it lies inside it. Copying, converting, "
  "clearing, scaling or setting a contiguous array affects exactly the elements named, each with the value asked for.",
  ["inputs", "histories"], "all ranks, extents, types and strides; all sequences of create, wrap, slice, copy, reference and free",
  "Tests exercise fixed small shapes and one create/free pair; reference histories and slice geometries are unbounded.",
  ["utility/sdp_mem.cpp"],
  [("descriptor creation and wrapping", "utility/sdp_mem.cpp"), ("reference counting", "utility/sdp_mem.cpp")],
  ["descriptor queries", "allocation and release of memory"])
p("C05", "Phase rotation is the exact change of phase centre",
  "Rotating baseline coordinates applies the one rotation that takes the original phase centre direction to the new one, and "
  "rotating visibilities multiplies each sample by a unit phase equal to the path difference of its own baseline and channel "
  "frequency times 2*pi. This holds element by element for every time, baseline, channel and polarisation.",
  ["inputs"], "all coordinates, directions, channel counts and supported type combinations",
  "The test checks one pair of directions and one small data set in two precisions.",
  ["visibility/sdp_phase_rotate.cpp"],
  [("rotation matrix and per-sample phase", "visibility/sdp_phase_rotate.cpp")], ["rotated coordinates and visibilities"])
p("C06", "Predicted visibilities equal the direct Fourier sum over all sources",
  "Each predicted visibility equals the sum over every source of that source's flux times the phase given by its direction "
  "and the sample's coordinates scaled to its channel, for every time, baseline, channel and polarisation and both ways "
  "of giving coordinates.",
  ["inputs"], "all numbers of sources, times, baselines, channels and polarisations, all values, all supported type combinations",
  "The test compares one fixed geometry with a reference; extents are unbounded.",
  ["visibility/sdp_dft.cpp"], [("source loop", "visibility/sdp_dft.cpp")], ["output visibilities"])
p("C07", "Imaging weights depend only on the total gridded weight of their cell",
  "Uniform weighting gives each visibility the reciprocal of the total weight accumulated in its grid cell, and robust "
  "weighting applies the Briggs formula with the robustness computed from all visibilities. Visibilities outside the grid "
  "are neither accumulated nor given a weight.",
  ["inputs"], "all coordinates (also at and beyond the grid edge), grid sizes, weights, polarisations and robustness values",
  "Tests use one random data set that lies inside the grid.",
  ["visibility/sdp_weighting.cpp"], [("gridding of weights and read-back", "visibility/sdp_weighting.cpp")],
  ["output weights", "grid of weights"])
p("C08", "Direct image/visibility transforms are the measurement equation and its adjoint",
  "The forward direct transform adds to every channel of every row whose channel range is not empty (all rows if no ranges are "
  "given) the sum over all sources of the measurement equation at the row's shifted coordinates and the channel's frequency. "
  "The inverse adds to every pixel the tapered conjugate sum over every channel of exactly those rows. "
  "Nothing else is changed.",
  ["inputs"], "all image sizes, sub-grid offsets, channel selections, coordinates and supported types",
  "Tests use a few image sizes with all channels selected and compare against another implementation within a tolerance.",
  ["grid_data/sdp_gridder_direct.cpp", "grid_data/sdp_gridder_utils.cpp"],
  [("direct transforms", "grid_data/sdp_gridder_utils.cpp")], ["visibilities", "sub-grid image"])
p("C09", "Adding a sub-grid and cutting it out address the same wrapped cells",
  "Adding a sub-grid at an offset changes exactly the grid cells obtained by moving its centre that far back from the grid centre "
  "and wrapping periodically round the grid, each by the sum of the sub-grid values landing there times the given factor. "
  "Cutting out at the opposite offset reads back exactly those cells. All other cells are unchanged.",
  ["inputs"], "all grid and sub-grid sizes (even and odd), all positive and negative offsets, all supported types",
  "Tests use a handful of sizes and offsets.",
  ["grid_data/sdp_gridder_utils.cpp"], [("periodic index wrapping", "grid_data/sdp_gridder_utils.cpp")],
  ["grid and sub-grid contents"])
p("C10", "Element-wise grid utilities apply their formula to every element once",
  "The utilities that scale, accumulate, subtract, shift or compare images and grids produce, for every element, exactly the "
  "documented function of the corresponding input elements, and reductions include every element exactly once.",
  ["inputs"], "all extents and values, all supported type combinations",
  "They are only exercised through whole imaging chains with tolerances that hide single-element errors.",
  ["grid_data/sdp_gridder_utils.cpp"], [("element-wise loops", "grid_data/sdp_gridder_utils.cpp")],
  ["output arrays and returned reductions"])
p("C11", "Channel selections cover exactly the visibilities inside the requested range",
  "Clamping the channel range of each row to a coordinate range (sdp_gridder_clamp_channels_single and _uv) keeps exactly those "
  "channels of the row's input range whose coordinate u0 + channel * du lies in the half-open range from min to max (including min "
  "and excluding max where the coordinate increases with the channel, the other way round where it decreases), so adjacent ranges "
  "never share a visibility and never lose one; where the coordinate does not change with the channel the range of the row is kept "
  "whole or becomes empty. An empty selection has its end equal to its start, and rows outside the requested rows are unchanged.",
  ["inputs"], "all coordinates of either sign, frequency ranges, channel ranges, row ranges and bounds",
  "Tests check a few random rows; the interesting cases are exact boundary values and zero or negative coordinates.",
  ["grid_data/sdp_gridder_clamp_channels.cpp"],
  [("interval clamp", "grid_data/sdp_gridder_clamp_channels.cpp")],
  ["start and end channel of each row"])
p("C12", "Tower gridding and degridding are adjoint and local",
  "Degridding a visibility reads, and gridding adds to, the same support-sized neighbourhood of sub-grid cells with the same "
  "real kernel weights, so the two operations are adjoint. Visibilities whose neighbourhood does not fit in the sub-grid "
  "leave the grid and the visibility unchanged.",
  ["inputs"], "all coordinates, sub-grid offsets and sizes, kernel supports, oversampling factors and channel selections",
  "Tests compare against a reference for a few supports and positions, never at the edge of the sub-grid.",
  ["grid_data/sdp_gridder_wtower_uvw.cpp"],
  [("kernel selection and range test", "grid_data/sdp_gridder_wtower_uvw.cpp")], ["visibilities", "sub-grid contents"])
p("C13", "Custom degridding sums exactly the kernel-weighted neighbourhood",
  "Each degridded visibility is the sum over the kernel support in all three directions of grid value times the three kernel "
  "values chosen by that sample's fractional position, optionally conjugated, for every time, baseline, channel and polarisation.",
  ["inputs"], "all grid sizes, kernel supports, oversampling factors and coordinates whose neighbourhood lies in the grid",
  "One fixed geometry is tested.",
  ["grid_data/sdp_degrid_uvw_custom.cpp"], [("degridding loop", "grid_data/sdp_degrid_uvw_custom.cpp")], ["visibilities"])
p("C14", "Flagging only ever sets flags, and decides each sample by its own thresholds",
  "A flagging call sets the flag of exactly the samples that satisfy the documented threshold and window conditions computed "
  "from the visibilities of the same baseline and polarisation, and never clears a flag or touches another sample.",
  ["inputs"], "all visibility values, window sizes, thresholds, sampling steps and extents",
  "Tests use one synthetic data set with obvious outliers.",
  ["visibility/sdp_flagger.cpp"], [("threshold loops", "visibility/sdp_flagger.cpp")], ["flag array"])
p("C15", "Bucket sorting places every visibility in exactly one bucket of its tile",
  "Counting, prefix-summing and sorting visibilities by tile assigns each visibility to every tile its neighbourhood touches, "
  "exactly once each, within that tile's range of the sorted arrays, and the prefix sum is the running total of the counts.",
  ["inputs", "schedules"], "all coordinates, tile sizes, supports and extents",
  "Tests use one data set and compare with a reference that shares the layout.",
  ["visibility/sdp_tiled_functions.cpp"], [("tile ranges and prefix sum", "visibility/sdp_tiled_functions.cpp")],
  ["counts, offsets and sorted arrays"])
p("C16", "Padded transform sizes are the smallest suitable sizes",
  "The padded size returned for a requested size and padding factor is even, not smaller than the padded request, composed only "
  "of small prime factors, and no smaller size has these properties.",
  ["inputs"], "all positive sizes and padding factors",
  "Tests sample a few sizes.",
  ["fourier_transforms/sdp_fft_padded_size.cpp"], [("search over factor products", "fourier_transforms/sdp_fft_padded_size.cpp")],
  ["returned size"])
p("C17", "CLEAN accounts for all flux it removes",
  "Each minor cycle adds the loop gain times the current peak to the component image at the peak and subtracts that multiple of "
  "the shifted point-spread function from the residual, so at any cycle residual plus components convolved with the "
  "point-spread function equals the dirty image.",
  ["inputs", "histories"], "all images, gains, thresholds, cycle limits and peak sequences",
  "Tests compare the final images for one field only.",
  ["clean/sdp_hogbom_clean.cpp"], [("minor cycle", "clean/sdp_hogbom_clean.cpp")], ["component, residual and output images"])
p("C18", "Example and vector functions compute their documented element-wise result",
  "Adding two vectors stores in every element of the output the sum of the corresponding inputs, and the example processing "
  "function accumulates its documented combination of plan parameters and inputs in every output element.",
  ["inputs"], "all lengths, values and supported types",
  "Tests use one length and constant or random values.",
  ["examples/sdp_vector_add.cpp", "examples/sdp_function_example_a.cpp"],
  [("element loop", "examples/sdp_vector_add.cpp")], ["output array"])
p("C19", "Sky coordinates keep what they were given",
  "A sky coordinate returns for every component exactly the value, epoch and type it was created or updated with, independently "
  "of other coordinates, and out-of-range component queries yield zero.",
  ["inputs", "histories"], "all values and sequences of creation, copy and update",
  "Tests check one coordinate.",
  ["utility/sdp_sky_coord.c"], [("accessors", "utility/sdp_sky_coord.c")], ["accessor results"])
p("C20", "Station beams are the weighted sum of element responses",
  "sdp_station_beam_aperture_array writes for each direction the sum over every element of its weight times the unit phase of "
  "the wavenumber times the element's position projected on the direction, times the element's own beam (the row the index "
  "names) for that direction where one is given, and divides by the number of elements when asked to normalise. "
  "For four-polarisation beams the X and Y halves are written only when asked for. sdp_element_beam_dipole writes for each direction "
  "the documented half-wave-style dipole response (with the stated stride and offset). Each of these and "
  "sdp_element_beam_spherical_wave_harp leaves every element of the output untouched that does not belong to its directions.",
  ["inputs"], "all numbers of elements and directions, all positions, weights, frequencies, strides and offsets",
  "Tests compare one station with stored values.",
  ["station_beam/sdp_station.cpp", "station_beam/sdp_element_dipole.cpp", "station_beam/sdp_element_spherical_wave_harp.cpp"],
  [("array factor", "station_beam/sdp_station.cpp"), ("dipole pattern", "station_beam/sdp_element_dipole.cpp")],
  ["output beam"])
p("C21", "Distributed transform steps only move data to periodically equivalent places",
  "The extraction and accumulation steps of the distributed Fourier transform map each facet and sub-grid index to the "
  "periodically equivalent index of the other side, scaled by the window at the same position, without losing or duplicating "
  "an element, for every facet and sub-grid offset.",
  ["inputs", "configurations"], "all valid image, facet and sub-grid sizes and offsets",
  "Tests use one configuration and a few offsets.",
  ["fourier_transforms/sdp_swiftly.cpp"], [("index wrapping", "fourier_transforms/sdp_swiftly.cpp")], ["buffers"])
p("C22", "Oversampled kernels, w-patterns and w-plane corrections are exactly as specified",
  "sdp_gridder_make_kernel fills row i of the kernel with the Fourier transform of the window at the grid positions shifted by "
  "(i - oversampling) / oversampling; sdp_gridder_make_w_pattern stores for every pixel the unit phase of one w-step at that pixel's direction, with shears; "
  "sdp_gridder_grid_correct_w_stack multiplies every pixel of a facet by the phase of w_offset w-steps at that pixel's direction "
  "(divides by it unless inverse), for any facet size and offset; and sdp_gridder_determine_w_step returns the w-step at which "
  "the largest n of the field's corners fills the given fraction of the range.",
  ["inputs"], "all supports, oversampling factors, image sizes, field sizes, facet offsets and shears",
  "Only checked indirectly through imaging accuracy.",
  ["grid_data/sdp_gridder_utils.cpp", "grid_data/sdp_gridder_grid_correct.cpp"],
  [("kernel and pattern generation", "grid_data/sdp_gridder_utils.cpp"),
   ("w-correction", "grid_data/sdp_gridder_grid_correct.cpp")], ["kernel, pattern and facet arrays"])
p("C23", "Normalising and centring transformed arrays changes exactly scale and sign",
  "sdp_fft_norm divides every element of a two-dimensional complex array by its number of elements, so that a forward and a "
  "backward transform give back the data, and sdp_fft_phase multiplies element (i, j) by +1 if i + j is even and by -1 if it is "
  "odd, so that applied twice it changes nothing. Both act on every element exactly once, whatever the layout of the array, and "
  "on no other memory. (The transform itself is done by the pocketfft library, which is not covered.)",
  ["inputs"], "all extents (including odd ones and 1), strides and values, single and double precision",
  "Tests use a few power-of-two sizes.",
  ["fourier_transforms/sdp_fft.cpp"], [("normalisation and phase shift", "fourier_transforms/sdp_fft.cpp")], ["array contents"])
p("C24", "Results do not depend on the thread schedule",
  "Those of these functions (" + COV + ") that process rows or pixels in parallel give the same result for every schedule and number of threads: no two "
  "parallel iterations write the same element, except where contributions are accumulated with race-free updates.",
  ["schedules"], "all interleavings of all parallel loops",
  "A test observes one schedule per run, on small inputs where races rarely show.",
  ["visibility/sdp_dft.cpp", "grid_data/sdp_gridder_utils.cpp", "grid_data/sdp_gridder_wtower_uvw.cpp"],
  [("parallel loops", "visibility/sdp_dft.cpp")], ["output arrays"])
p("C25", "FFT convolution equals direct convolution with the larger image's extent",
  "Convolving two images through padded transforms gives, for every output pixel, the full linear convolution sum centred as "
  "documented, with no circular wrap-around, for every pair of even or odd image sizes.",
  ["inputs"], "all image sizes and values", "Tests use two fixed sizes and compare with one reference.",
  ["numeric_functions/sdp_fft_convolution.cpp"], [("padding and cropping", "numeric_functions/sdp_fft_convolution.cpp")],
  ["output image"])
p("C26", "Gridding chains reproduce the measurement equation to the stated accuracy",
  "Gridding followed by transformation and correction reproduces the direct measurement equation within the accuracy selected by "
  "the kernel parameters, for every w range, and degridding is its adjoint.",
  ["inputs", "configurations"], "all images, coordinates and accuracy parameters",
  "Tests sample a few configurations with loose tolerances.",
  ["grid_data/sdp_gridder_uvw_es_fft.cpp", "grid_data/sdp_grid_wstack_wtower.cpp"],
  [("w-stacking loop", "grid_data/sdp_gridder_uvw_es_fft.cpp")], ["images and visibilities"])
json_path = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(json_path, "w") as f:
    for x in P:
        f.write(json.dumps(x) + "\n")
