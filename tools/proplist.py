"""The properties; tools/meta.py writes properties.jsonl and MANIFEST.json from them."""
BB = "pyspectral/blackbody.py"
RTC = "pyspectral/radiance_tb_conversion.py"
NIR = "pyspectral/near_infrared_reflectance.py"
RAY = "pyspectral/rayleigh.py"
ATM = "pyspectral/atm_correction_ir.py"
UT = "pyspectral/utils.py"
RD = "pyspectral/rsr_reader.py"
CF = "pyspectral/config.py"
SOL = "pyspectral/solar.py"
TST = "pyspectral/testing.py"
BN = "pyspectral/bandnames.py"
RAW = "pyspectral/raw_reader.py"

NOT_APPLICABLE = {}

NOTES = ("All checks execute the functions of /repo's current source symbolically (sx/) and let z3 decide the assertions of the harnesses "
         "in props/; counterexamples are replayed on the real package before they are reported. DESIGN.md has the models that are "
         "trusted, the bounds and what lies outside them; known-findings.jsonl lists the defects that were found.")

PROPS = [
 dict(id="C01", title="Planck radiance and brightness temperature are each other's inverse",
      statement="For every wavelength (or wavenumber) and temperature, the brightness temperature of the Planck radiance of T is T, and the "
                "Planck radiance of the brightness temperature of L is L, within rounding. A larger radiance always has a larger brightness "
                "temperature. This holds for scalars, numpy, dask and xarray input, in single and double precision.",
      quant="all wavelengths in 3-15 um (wavenumbers 0.5e5-4e5 m-1), temperatures 150-400 K, radiances in the corresponding range, arrays of "
            "1-3 elements",
      why="Tests compare a few radiances with stored numbers; two compensating errors, or an error for one container or dtype only, pass them.",
      mech=[("Planck's law", BB + ":planck"), ("inverse", BB + ":blackbody_rad2temp"), ("inverse per wavenumber", BB + ":blackbody_wn_rad2temp")]),
 dict(id="C02", title="Planck radiances are the values of Planck's law",
      statement="The radiance of every (temperature, wave) pair is Planck's law in SI units, per wavelength and per wavenumber, in a table with "
                "one row per temperature and one column per wave. Radiances are positive and finite and increase with temperature; a "
                "temperature of zero or NaN gives NaN without affecting its neighbours. The temperatures given are not modified.",
      quant="all wavelengths 0.3-20 um, temperatures 150-400 K or within 1e-6 K of zero or NaN, up to 3 x 3 points, scalar/numpy/dask/xarray, "
            "float32 and float64",
      why="Tests pin a handful of temperatures and wavelengths; mistakes at other waves, in 2-d or chunked input, or near zero remain unseen.",
      mech=[("Planck's law", BB + ":planck"), ("wavelength", BB + ":blackbody"), ("wavenumber", BB + ":blackbody_wn")]),
 dict(id="C03", title="Band radiance is the response-weighted Planck radiance",
      statement="The radiance of a band at a temperature is the Planck radiance integrated over the spectral response of the chosen detector "
                "(trapezoidal), divided by the integral of the response when normalised, in wavelength and in wavenumber space, with the "
                "unit that goes with it. The band may be given by name, alias or wavelength; asking again gives the same. A normalised band radiance lies "
                "between the spectral radiances of the band and increases with temperature.",
      quant="all responses of 2-4 points in 9-13 um, 1-2 detectors, temperatures 150-400 K, 1-2 pixels, all ways of naming the band, both wave spaces",
      why="Tests use two real instruments and a few temperatures in wavelength space; responses, detectors and units are not varied.",
      mech=[("band radiance", RTC + ":RadTbConverter.tb2radiance"), ("set up", RTC + ":RadTbConverter.__init__")]),
 dict(id="C04", title="The Tb-to-radiance table gives the radiance of the temperature step of a Tb",
      statement="The table holds the band radiance of every temperature step, and looking up a brightness temperature returns the entry of the "
                "step at or just below it; below or above the table the first or last entry is returned, and NaN gives NaN. Numpy, dask (in any chunks, lazily) "
                "and scalar input agree, the dtype of floating-point input is kept, and the input is not modified.",
      quant="all temperatures 100-400 K or NaN, tables of 2-40 entries with steps 0.1-10 K and arbitrary radiances, 1-2 pixels",
      why="Tests look up a few temperatures inside one table; the edges, NaN and the step boundaries are not covered.",
      mech=[("look-up", RTC + ":RadTbConverter.tb2radiance"), ("apply", RTC + ":RadTbConverter._getitem"), ("table", RTC + ":RadTbConverter.make_tb2rad_lut")]),
 dict(id="C05", title="SEVIRI radiance-Tb regression is its own inverse",
      statement="For every tabulated SEVIRI band of Meteosat-8 and -9, the conversion from brightness temperature to radiance is the regression "
                "formula of the band's coefficients in W/m^2 sr^-1 (m^-1)^-1, and the conversion back is its inverse. Bands given as numbers, look-up tables and "
                "band-integrated radiances are refused.",
      quant="all bands, all temperatures 150-400 K, all radiances in the corresponding range, 1-2 pixels",
      why="Tests check one band at a few temperatures in one direction.",
      mech=[("forward", RTC + ":SeviriRadTbConverter.tb2radiance"), ("inverse", RTC + ":SeviriRadTbConverter.radiance2tb")]),
 dict(id="C06", title="The 3.x um reflectance solves the radiance balance where it is defined",
      statement="The near-infrared reflectance is (L - B(T11) C) / (S cos(sunz)/pi - B(T11) C), with C the CO2 correction of the transmission when a 13.4 um band "
                "is given and 1 otherwise and the zenith angle limited to the given maximum, wherever the denominator exceeds its limit, the Sun is above the "
                "masking limit and all inputs are valid. Elsewhere it is NaN (dask, plain numpy) or masked (masked arrays). The result has the shape of "
                "the input, stays lazy exactly when a temperature is lazy, and the inputs are not modified.",
      quant="all brightness temperatures 200-360 K, NaN or masked, zenith angles -20 to 120 degrees or NaN, solar flux 1-5 W/m2, any look-up "
            "table, 1-2 pixels, numpy/masked/dask/scalar",
      why="Tests compute a few pixels; NaN and mask propagation, the limits and the interplay of the inputs' containers are not covered.",
      mech=[("balance", NIR + ":Calculator.reflectance_from_tbs"), ("CO2 correction", NIR + ":Calculator.derive_rad39_corr"),
            ("undefined pixels", NIR + ":Calculator._calculate_r3x")]),
 dict(id="C07", title="The emissive part of the 3.x um band complements the reflected part",
      statement="The emissive radiance is the radiance left when the reflected part is taken away: reflected and emitted parts add up to the "
                "observed radiance, and where there is no reflectance the emissive part is the observed one. Its brightness temperature is "
                "the inverse Planck temperature at the band's central wavelength, and asking again gives the same.",
      quant="all brightness temperatures 200-360 K or NaN, zenith angles -20 to 120 degrees or NaN, solar flux 1-5 W/m2, any look-up table, 1-2 pixels",
      why="Tests compare a few stored numbers at daytime.",
      mech=[("emissive part", NIR + ":Calculator.emissive_part_3x")]),
 dict(id="C08", title="3.x um results depend only on the band and inputs, not on earlier calls",
      statement="What a calculator returns depends on its own platform, instrument, band, detector and solar flux and the inputs of that call, never on calls "
                "made before or on other calculators that share the table directory. A stored Tb-to-radiance table is used only for the band and "
                "detector it was made for. Bands that are not near 3.7-3.9 um are refused.",
      over=["histories", "inputs"],
      quant="all histories of 2-3 calls or calculators over the given bands, detectors and settings, with symbolic responses and temperatures",
      why="Tests make one calculator per test with a prepared table.",
      mech=[("table file", NIR + ":Calculator._set_lutfile"), ("solar flux", NIR + ":Calculator._get_solarflux"), ("table cache", RTC + ":RadTbConverter.read_tb2rad_lut")]),
 dict(id="C09", title="Rayleigh reflectance is the interpolated table value, limited to 0-100 %",
      statement="The reflectance is 100 times the look-up table interpolated multilinearly in wavelength and in the secants of the Sun and satellite zenith angles and the "
                "azimuth difference, with zenith angles clipped to the table, and limited to 0-100 %. A wavelength outside the table gives zero correction. Shape and "
                "dtype are those of the angles, dask input stays lazy, chunking does not matter, and the angles are not modified.",
      quant="all zenith angles -10 to 120 degrees or NaN, azimuth differences 0-180 or NaN, arbitrary tables of 2-3 nodes per axis, 1-2 pixels, "
            "numpy and dask, float32 and float64",
      why="Tests compare a few pixels of one stored table.",
      mech=[("interpolation", RAY + ":Rayleigh._interp_rayleigh_refl_by_angles"), ("clipping", RAY + ":_clip_angles_inside_coordinate_range"),
            ("entry", RAY + ":Rayleigh.get_reflectance")]),
 dict(id="C10", title="Over bright scenes the Rayleigh correction is relaxed with the red band",
      statement="Where the red band is below 20 % the full correction is applied, above it the correction falls linearly to zero at 100 %: "
                "it is (1 - (red - 20)/80) of the clear-sky value, never negative and never more, and NaN where the red band is. The red band is not modified, and the container (numpy or lazy dask) is kept.",
      quant="all red reflectances -10 to 150 % or NaN, arbitrary table values, all angles, 1-2 pixels, numpy and dask",
      why="Tests use one red value per case, all within range.",
      mech=[("relaxation", RAY + ":Rayleigh._relax_rayleigh_refl_correction_where_cloudy"), ("entry", RAY + ":Rayleigh.get_reflectance")]),
 dict(id="C11", title="Rayleigh reduction at high zenith angles is linear and bounded",
      statement="Below the threshold angle the reflectance is unchanged; from there it is multiplied by 1 - strength x (zenith - threshold)/(maximum - threshold), "
                "limited to 0-1. It never becomes negative nor larger, and never increases with the angle. NaN stays NaN, and dask stays lazy.",
      quant="all zenith angles -10 to 180 degrees or NaN, thresholds 0-80, maxima up to 110, strengths -1 to 3, reflectances 0-100, 1-2 pixels",
      why="Tests use one threshold, maximum and strength.",
      mech=[("reduction", RAY + ":Rayleigh.reduce_rayleigh_highzenith")]),
 dict(id="C12", title="A band's Rayleigh correction is the one at its effective wavelength",
      statement="A band given by name is corrected at its response-weighted mean wavelength with weights of the inverse fourth power of wavelength; a number is taken "
                "as a wavelength in micrometre and needs no spectral response. Between table wavelengths the value is linear, and outside the "
                "table it is zero. Unknown bands and bands without a response are refused.",
      quant="all wavelengths 0.3-1 um, arbitrary responses and tables of 2-4 wavelengths",
      why="Tests use one or two bands of a mocked response.",
      mech=[("effective wavelength", RAY + ":Rayleigh._get_effective_wavelength_and_band_name"), ("weight", UT + ":get_central_wave"), ("wavelength interpolation", RAY + ":Rayleigh.get_reflectance")]),
 dict(id="C13", title="Each aerosol and atmosphere type uses its own table; others are refused",
      statement="The reflectance comes from the table of exactly the requested aerosol and atmosphere type (by default marine clean aerosol and US standard), independent of other "
                "corrections in use. Unknown types are refused when the correction is set up, a missing table is an error and not a zero correction, and a table is called "
                "up to date only when its version file says so.",
      over=["inputs", "configurations"],
      quant="all 11 aerosols x 6 atmospheres, all other names of up to 6 characters and variants of known names, arbitrary table values",
      why="Tests use two or three of the combinations.",
      mech=[("types", RAY + ":Rayleigh.__init__"), ("table files", RAY + ":RayleighConfigBaseClass"), ("types list", UT + ":AEROSOL_TYPES")]),
 dict(id="C14", title="IR limb-cooling correction follows its formula and spares invalid pixels",
      statement="Each valid pixel's temperature is raised by the limb-cooling term of its own temperature and view angle; pixels beyond 90 degrees or with invalid angle keep their temperature and "
                "invalid temperatures stay invalid. The correction never cools and does not decrease with the angle. Numpy, masked and dask (lazy, any chunks) input agree, and the input "
                "is not modified.",
      quant="all temperatures 120-380 K, NaN or masked, view angles -10 to 120 degrees or NaN, 1-4 pixels",
      why="Tests compare one array per container.",
      mech=[("correction", ATM + ":AtmosphericalCorrection.get_correction"), ("formula", ATM + ":viewzen_corr")]),
 dict(id="C15", title="Conversion to wavenumber space keeps the spectral response",
      statement="Converting to wavenumbers turns each wavelength w (um) into 10000/w cm-1 in increasing order with its own response, for every band and detector, and sets unit and scale. "
                "Data already in wavenumbers stay as they are, the input is not modified, and converting back is refused.",
      quant="1-3 bands of 1-2 detectors, 1-4 arbitrary increasing wavelengths in 0.3-15 um and arbitrary responses",
      why="Tests convert one three-point response.",
      mech=[("conversion", UT + ":convert2wavenumber"), ("reader", RD + ":RelativeSpectralResponse.convert")]),
 dict(id="C16", title="Central wavelength and integral are the moments of the response",
      statement="The central wavelength is the ratio of the first moment to the integral of the (weighted) response by the trapezoidal rule, lies within the response's range, and does not depend on "
                "the scale of the response. The integral is given per detector, for any name of the band. Inputs are not modified.",
      quant="all responses of 2-5 points, arbitrary increasing (or decreasing) waves, any weights",
      why="Tests check a few bands of real instruments.",
      mech=[("centre", UT + ":get_central_wave"), ("integral", RD + ":RelativeSpectralResponse.integral")]),
 dict(id="C17", title="A band is found by wavelength exactly when its centre is within tolerance",
      statement="Looking up a wavelength returns the standard name of the band whose central wavelength is closer than the tolerance (and than 2 um), and nothing when there is none. When several bands are that close, "
                "all of them are returned if multiple bands are allowed, and the lookup is refused if not. The name found can be used to get the band.",
      quant="1-4 bands with arbitrary central wavelengths 0.3-15 um, wavelengths and tolerances, 1-2 detectors, both wave spaces",
      why="Tests look up a few wavelengths in one instrument.",
      mech=[("lookup", UT + ":get_bandname_from_wavelength"), ("reader", RD + ":RelativeSpectralResponse.get_bandname_from_wavelength"), ("names", UT + ":BANDNAMES")]),
 dict(id="C18", title="Sorted spectral data are increasing, unique and keep their pairs",
      statement="Sorting x and y values returns strictly increasing x without duplicates, every x of the input and no other, each with a y that belonged to it; sorting again changes nothing. "
                "Dtypes are kept and the input arrays are not modified.",
      quant="all sequences of 1-5 points, duplicates included",
      why="Tests sort two small arrays.",
      mech=[("sorting", UT + ":sort_data")]),
 dict(id="C19", title="Bandwidth measures agree with the response",
      statement="For a response normalised to one, the full width at half maximum runs from the first to the last point of at least one half, the wave range from the first to the last point above the "
                "threshold with the central wavelength between, and the energy bounds are the points where the cumulated response reaches the given percentage and stays within the rest. Responses "
                "without such points are refused, not answered wrongly, and the input is not modified.",
      quant="all responses of 1-5 points, arbitrary increasing wavelengths 0.3-15 um, arbitrary thresholds and energy fractions",
      why="Tests use one or two bell-shaped responses.",
      mech=[("width", UT + ":get_fullwidth_halfmax"), ("range", UT + ":get_wave_range"), ("energy bounds", UT + ":get_bounds_integrated_energy")]),
 dict(id="C20", title="Instrument names are brought to the form that the data files use",
      statement="An instrument name in any case, with slashes or dashes, becomes the single lower-case form without slashes and dashes that the files use, and for a listed platform an "
                "instrument that is not on it is replaced by the platform's one. Unlisted platforms keep the instrument, and what is not a string is refused.",
      quant="all listed platforms and unlisted ones; every listed instrument in any case and arbitrary strings of up to 5 characters",
      why="Tests check a few names.",
      mech=[("names", UT + ":check_and_adjust_instrument_name"), ("tables", UT + ":INSTRUMENTS"), ("same instrument", UT + ":are_instruments_identical"), ("reader", RD + ":_get_rsr_filename")]),
 dict(id="C21", title="Spectral responses are read, named and written as they are",
      statement="A reader gives for each band and detector of the file the wavelengths in micrometre, responses, central wavelength, platform, instrument and description that the file holds, "
                "whatever scale or attribute types it uses. A band is available under its own and its standard name, and any other name is refused or gets the default. Raw data written by the converter "
                "are read back unchanged.",
      quant="files of 1-3 bands with 1-3 detectors, arbitrary wavelengths and responses, scales 1, 1e-6, 1e-9 and arbitrary, all attribute layouts; all band names",
      why="Tests read a few mocked files with fixed values.",
      mech=[("reader", RD + ":_load_rsr_info_from_file"), ("names", RD + ":RSRDict"), ("writer", UT + ":convert2hdf5"), ("strings", UT + ":convert2str")]),
 dict(id="C22", title="A spectral response is identified by its file or platform and instrument",
      statement="A reader is given either a file, or platform and instrument, and reads exactly that file; any contradicting or incomplete combination is refused. Files that do not exist (or directories) are reported "
                "as missing, and the platform and instrument of the reader are those of its file.",
      over=["inputs", "configurations"],
      quant="every combination of the arguments, existing or not, with 1-3 files of arbitrary content",
      why="Tests check a few of the combinations.",
      mech=[("arguments", RD + ":RelativeSpectralResponse.__init__"), ("missing file", RD + ":RelativeSpectralResponse._sanitize_inputs")]),
 dict(id="C23", title="The configuration is that of the named file, over the package's defaults",
      statement="Settings come from the file given by argument, else by environment variable, else the package's own file, with nothing left from a file read before, and nested settings are merged key by key. "
                "The data directories are those configured, or the user's default data directory where not; they are created when missing, existing ones are left "
                "as they are, and nothing else is created. A file that does not exist is refused.",
      over=["configurations", "histories"],
      quant="all combinations of settings, arguments and environment; dictionaries of up to 3 levels with arbitrary values",
      why="Tests read one or two configuration files.",
      mech=[("reading", CF + ":get_config"), ("merging", CF + ":recursive_dict_update")]),
 dict(id="C24", title="Data are downloaded only when out of date, allowed and not a dry run",
      statement="Using a spectral response or a Rayleigh correction fetches nothing when the version file says the data are up to date, when downloads are not allowed by the configuration, or for a file given by name; asking explicitly for a check or download of the Rayleigh tables (check_and_download) goes by the version file alone, and a dry run fetches nothing. Otherwise each needed archive is fetched once from its "
                "own address, unpacked in the directory of its kind, and removed. After that the data are up to date and are not fetched again.",
      over=["configurations", "histories"],
      quant="all version file states, permission settings, aerosol types and combinations of them, destinations and dry-run flags",
      why="Tests mock the download function and check a few calls.",
      mech=[("responses", RD + ":check_and_download"), ("tables", RAY + ":check_and_download"), ("fetch", UT + ":download_luts"), ("fetch responses", UT + ":download_rsr")]),
 dict(id="C25", title="A failed download is reported, leaves the data as they were, and is retried",
      statement="When the connection fails or breaks at any point, the server answers with an error, or what arrives is incomplete or not an archive, the failure is raised, the existing data and version file are as before, and "
                "the next use tries again. A download that succeeds has all files of the archive in place. An archive can not write outside its directory.",
      over=["fault_sequences", "crash_points"],
      quant="one or two attempts with any of the faults at any of up to 6 pieces, archives cut off at any ninth, any HTTP error 400-599, archives of 1-4 files",
      why="Tests never let a download fail.",
      mech=[("fetch and unpack", UT + ":_download_tarball_and_extract")]),
 dict(id="C26", title="In-band solar flux is the irradiance weighted with the spectral response",
      statement="The in-band solar flux is the integral of the (interpolated) solar spectrum times the response on a regular grid, and the in-band irradiance is the flux divided by the integral of "
                "the response, in wavelength and wavenumber space. Flux is proportional to the response, irradiance does not depend on its scale, and neither on what was computed before. The response and the spectrum are not modified.",
      quant="solar spectra that are cubic polynomials (any four-point spectrum file among them), arbitrary responses of 4 points, 1-2 detectors, steps 0.05/0.1 um and 100/200 cm-1, all histories of 2-3 calls",
      why="Tests compare a few stored fluxes.",
      mech=[("flux", SOL + ":SolarIrradianceSpectrum._band_calculations"), ("interpolation", SOL + ":SolarIrradianceSpectrum.interpolate"), ("wavenumbers", SOL + ":SolarIrradianceSpectrum.convert2wavenumber")]),
 dict(id="C27", title="Testing utilities isolate what runs inside them and restore everything",
      statement="Inside override_config the configuration is exactly the given options or file. Inside mock_rsr, mock_tb_conversion, mock_rayleigh and mock_pyspectral_downloads spectral responses and tables can be used "
                "without any request, have the given central wavelengths (under any name of the band) and the given table for every requested aerosol and atmosphere type, and inside forbid_pyspectral_downloads every download "
                "raises RuntimeError. On leaving, normally or by an exception and also when nested, PSP_CONFIG_FILE, the readers and the downloads are as before, temporary files are gone and directories given by the user are kept.",
      over=["inputs", "histories", "configurations"],
      quant="all combinations of options, directories and ways to leave, up to 2 nested overrides, 5 instruments, arbitrary central wavelengths and table values",
      why="Tests use the utilities with one set of arguments and leave them normally.",
      mech=[("configuration", TST + ":override_config"), ("responses", TST + ":mock_rsr_files"), ("tables", TST + ":mock_rayleigh_luts"), ("downloads", TST + ":forbid_pyspectral_downloads")]),
 dict(id="C28", title="Agency response files are read with the right band, unit and pairing",
      statement="The readers of text files in rsr_convert_scripts (ABI, AGRI, AMI, AVHRR, COCTS, GHI, MERSI-1 of FY-3A/C, MERSI-2, MERSI-3, MERSI-RM, MSU-GS, SLSTR, VIRR, VIIRS, MODIS) return for the requested band and each of its detectors "
                "exactly the samples of its file: wavelengths in micrometre whatever the unit of the file (nanometre, wavenumber), each with the response of its row, in increasing order of wavelength for wavenumber files; "
                "samples without data (MODIS) are left out, AGRI, GHI and MERSI-1 leave out responses up to 0.001, and AGRI and GHI turn percent into fractions. "
                "The VIIRS and MODIS converters write what was read to the file that the response reader reads back. Without the file of a band there is no response.",
      over=["inputs", "configurations"],
      quant="text files with 3-4 samples of arbitrary wavelengths and responses per band and detector, 1-2 detectors in any order of the rows, first/last and some middle bands of each instrument",
      why="No test runs any of the readers.",
      mech=[("plain columns", "rsr_convert_scripts/avhrr_rsr.py:AvhrrRSR._load"), ("wavenumbers", "rsr_convert_scripts/ami_reader.py:AmiRSR._load"), ("detectors", "rsr_convert_scripts/viirs_rsr.py:ViirsRSR._load"),
            ("lines", "rsr_convert_scripts/modis_rsr.py:read_modis_response"), ("files", "pyspectral/raw_reader.py:InstrumentRSR._get_bandfilenames")]),
 dict(id="C29", title="The command line programs do what their options say",
      statement="bin/download_rsr.py fetches the response archive exactly when the stored version is not the current one, downloading is allowed and it is not a dry run, and unpacks it in the destination directory given (default: the configured one) and nowhere else. "
                "bin/download_atm_correction_luts.py fetches, for the aerosol types asked for (default: all), exactly the tables whose stored version is out of date, each in its own directory, and nothing in a dry run. "
                "bin/find_wavelengths_for_satpy.py prints for the band asked for (default: every band) the first wavelength, the central wavelength and the last wavelength, to three decimals, where first and last are those with a response above the threshold (option -r, default 0.15) of the detector asked for (default det-1).",
      over=["inputs", "configurations"],
      quant="every combination of the options, stored versions old, current or absent; responses of 3-4 samples with arbitrary values, any threshold between 0 and 0.9, two bands with two detectors each",
      why="No test runs any of the programs.",
      mech=[("responses", "bin/download_rsr.py"), ("tables", "bin/download_atm_correction_luts.py"), ("ranges", "bin/find_wavelengths_for_satpy.py:main"), ("threshold", "pyspectral/utils.py:get_wave_range")]),
 dict(id="C30", title="No result depends on earlier calls or is changed by later ones",
      statement="Each public calculation (Planck functions and their inverses, radiances of a band with and without a table and their inverses, SEVIRI conversions, 3.x micron reflectance and emissive part, Rayleigh correction by band or wavelength, "
                "its reduction at high zenith angles, limb correction, solar flux, irradiance and constant, reading, integrating and converting responses, central wavelength, band by wavelength) gives the same result as the same call in a freshly started program, whatever was asked before "
                "of the same object, of another object (other platform, band, detector, wave space, aerosol, atmosphere, solar spectrum or step) or was refused. A result that was returned, also a lazy one computed later, stays what it was.",
      over=["inputs", "histories", "configurations"],
      quant="two calls with arbitrary arguments (temperatures, angles, wavelengths, responses, tables), of the same and of different shapes, numpy and dask, with an optional refused call in between",
      why="Tests make one call per object.",
      mech=[("reflectance state", "pyspectral/near_infrared_reflectance.py:Calculator.reflectance_from_tbs"), ("Rayleigh", RAY + ":Rayleigh.get_reflectance"), ("solar spectrum", "pyspectral/solar.py:SolarIrradianceSpectrum._band_calculations"),
            ("radiances", "pyspectral/radiance_tb_conversion.py:RadTbConverter.tb2radiance"), ("responses", "pyspectral/rsr_reader.py:RelativeSpectralResponse")]),
]
