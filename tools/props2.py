prop("C10", "Gaussian oscillators: Gaussian absorption and its Kramers-Kronig partner",
     "The imaginary part of the dielectric function of a Gauss material is the sum of its oscillators, each a difference of two Gaussians of amplitude Am at +En and -En whose full width at "
     "half maximum is Br, and the real part is the high-frequency constant plus the Kramers-Kronig transform of that absorption. This holds at every photon energy for the current parameter values, "
     "for one or several oscillators; parameter lists of different lengths are refused.",
     ["inputs"], "all amplitudes and offsets, every energy within the grid cells examined, for a set of widths and positions",
     "tests compare two stored curves; an error in the numerical transform between its sample points, or for an unusual width, is not visible there",
     [DI], [("numerical Hilbert transform and interpolation", DI + ":Gauss.epsilon")], ["Gauss(...).epsilon, Gauss(...).complex"])
prop("C11", "Tabulated and constant refractive indices",
     "A refractive index given as a table (arrays or a file, wavelengths in micrometres) returns the tabulated n and k at its wavelengths and the linear interpolation between neighbouring rows elsewhere, held constant "
     "outside the table; a constant index is the same at every wavelength, and without a wavelength the material's own one is used. A file without extinction coefficients is transparent. Every bundled material agrees with its data file, and the caller's arrays stay as they were.",
     ["inputs"], "all tables of 2-3 rows (6 in thorough), all wavelengths; all bundled materials between chosen pairs of rows",
     "tests look up a few wavelengths of one bundled material",
     [DI], [("units, interpolation, reading", DI + ":RI.__init__, RI.complex"), ("bundled data", DI + ":load_material")])
prop("C12", "Residuals and chi squared of an ellipsometry objective",
     "The residuals of an objective are, for every unmasked data point, modelled minus measured Psi, followed for every point by the distance of modelled and measured Delta, the shortest way around the circle of 360 degrees; "
     "chi squared is the sum of their squares. The model is evaluated at the wavelengths and angles of the unmasked points, in the Delta convention of the objective's own data, also when models or structures are shared between objectives.",
     ["inputs", "configurations"], "all data and model values for up to 3 points, every mask, both conventions, parameters given or current",
     "tests use data the model nearly fits, far from the 0/360 seam, unmasked, with one objective at a time",
     [OB], [("residuals", OB + ":ObjectiveSE.residuals, circular_distance"), ("chi squared", OB + ":ObjectiveSE.chisqr")])
prop("C13", "Log-likelihood, log-prior and log-posterior",
     "The log-likelihood is -1/2 times the sum over the residuals of residual squared over variance plus, for weighted data whose weights are used, log(2 pi variance), where the variance is 1, or 1 + exp(2 lnsigma) model^2 when there is a "
     "noise parameter lnsigma; the extra terms of the model and of the user are added. The log-prior is the sum of the priors of the varying parameters, counted once each. The log-posterior is their sum, and is minus infinity, without evaluating the model, when the prior is not finite.",
     ["inputs", "configurations"], "all data, model values, noise parameters and priors for 2-3 points; weighted or not, noise parameter absent, fixed or varying",
     "tests compare one value for one data set; combinations of weighting, noise and extra terms are not exercised",
     [OB], [("likelihood", OB + ":ObjectiveSE.logl"), ("prior", OB + ":ObjectiveSE.logp"), ("posterior", OB + ":ObjectiveSE.logpost")])
prop("C14", "Parameter vectors: which parameters, in which order, what they change",
     "Varying parameters are listed once each, in a fixed order, and any query given a vector of their values answers for exactly those values and leaves them set; a full-length vector or a None behaves as documented and a wrong length is refused. "
     "The prior transform maps each entry with its own parameter's prior. The covariance is that of the least-squares problem at the current values (refused if a varying parameter has no effect) and computing it leaves the parameters as they were.",
     ["inputs", "histories"], "all parameter values, with fixed and shared parameters, vectors as list, tuple or array; 1-2 varying parameters for the covariance",
     "tests set parameters in one order and read one result; state left behind by a query shows only in the next one",
     [OB], [("setting parameters", OB + ":ObjectiveSE.setp"), ("covariance", OB + ":ObjectiveSE.covar"), ("prior transform", OB + ":ObjectiveSE.prior_transform")])
prop("C15", "A dataset holds what it was given; masks select the same points of every column",
     "A dataset returns the wavelengths, angles, Psi and Delta it was given, point by point, with Delta reflected about 180 degrees if asked for; it shares no memory with its source and leaves it as it was. "
     "A mask (booleans, integers, one value, or None to clear) selects the same points of every column and survives copying into another dataset; grouping by wavelength returns each wavelength once with exactly its points.",
     ["inputs", "histories"], "all values for up to 3 points (more in thorough), every mask, repeated wavelengths, sequences of masks",
     "tests build one dataset from floats and use no mask",
     [DA], [("columns and mask", DA + ":DataSE"), ("grouping", DA + ":DataSE.unique_wavelength_data")])
prop("C16", "Saving, loading and refreshing datasets",
     "A dataset that is saved and loaded again has the same points in the same order, whatever mask was set; files with up to 100 header lines, given by name, path, handle or stream, load every row. "
     "Refreshing brings the current contents of the file in the dataset's own Delta convention (and its mask, if the number of points is the same); data that did not come from a file stay as they are.",
     ["inputs", "histories"], "all values for 1-3 rows, every mask, name/path/handle/stream, several headers, changes of the file between load and refresh",
     "tests load two files by name and never refresh",
     [DA], [("reading and writing", DA + ":DataSE.save, DataSE.load, DataSE.refresh")])
prop("C17", "Accurion EP4 files",
     "Reading an EP4 file gives one dataset for each time and for each run of rows at one location (within 0.2 mm of the first row of the run, in x and in y), labelled with that time and location; within a dataset there is one point for each pair of angle and wavelength, ordered by angle then wavelength, whose Psi and Delta are "
     "the means of its rows. Incomplete rows count for nothing wherever they are, no complete row is lost, and Delta is reflected about 180 degrees only if asked for.",
     ["inputs", "configurations"], "all values, coincidences and orders of up to 3 rows (4 in thorough); with or without time and location columns, missing entries anywhere, columns in any order",
     "the tests read three files and count points",
     [DA], [("splitting and averaging", DA + ":open_EP4file, _loadEP4")])
prop("C18", "Woollam M2000 files",
     "Reading an M2000 file gives the wavelength, angle, Psi and Delta of every point in the file's order (or of every n-th point, starting with the first), with the header kept as metadata. "
     "A time series gives a dictionary from the time in seconds (rounded to 0.1) to the dataset with exactly the rows of that time, in order of time, or every n-th of these. Other kinds of files are refused.",
     ["inputs", "configurations"], "all values for up to 9 rows, any order and coincidence of times, both reductions, file given by name, path or handle",
     "the tests read two files with one choice of reductions",
     [DA], [("static and dynamic readers", DA + ":open_M2000file")])
prop("C19", "Film Sense files",
     "Reading a Film Sense file gives, at every wavelength of the file and the nominal angle of its header, Psi = arccos(N)/2 in [0, 90] degrees and Delta in [0, 360) in the quadrant given by the signs of C and S; a dynamic file gives a dictionary from each time "
     "to its dataset. The header is kept as metadata and other files are refused.",
     ["inputs", "configurations"], "all N, C, S, wavelengths, angles and times for 1-2 wavelengths and 1-3 times; file given by name, path or handle",
     "the tests' files have Delta between 148 and 177 degrees only",
     [DA], [("static and dynamic readers", DA + ":open_FilmSenseFile")])
prop("C20", "Horiba files",
     "Reading a Horiba file gives the rows of its data section, at the angle of incidence of its header, in order, restricted to the wavelengths strictly between the cutoffs, with Delta reflected about 180 degrees if asked for. "
     "Every other section of the file is kept as metadata: nothing for an empty one, a string for one line, a list for several.",
     ["inputs", "configurations"], "all values and cutoffs for up to 2 rows (4 in thorough), section order, extra columns, file given by name, path, text or binary handle",
     "there is no test of this reader",
     [DA], [("sections and data", DA + ":open_HORIBAfile")])
prop("C21", "Structures are built from layers in order, share them, and refuse anything else",
     "Joining materials, layers and structures with | and |=, appending, listing, or repeating a layer n times gives the layers in that order; | leaves its operands as they were, and layers are shared, so changing a parameter shows in every structure that uses it. "
     "A copy has its own list of layers and its own settings, equal to the original's. Anything that is not a layer, material or structure, a solvent that is not a material, and a depolarisation factor set outside [0, 1] are refused and change nothing.",
     ["inputs", "histories"], "all optical constants, thicknesses and roughnesses; eight ways of building, sequences of changes to copies, operands and parameters",
     "tests build by one route and look at the result once",
     [ST], [("composition", ST + ":StructureSE.__or__, __ior__, append, ComponentSE.__or__, __mul__"), ("copies", ST + ":StructureSE.__copy__"), ("validation", ST + ":StructureSE.solvent, depolarisation_factor")])
prop("C22", "The refractive index profile of a structure",
     "The index profile at a depth, measured from the first interface, is the index of the layer there when interfaces are sharp, and the sum of one error-function step per interface, as wide as its roughness, otherwise. "
     "Aligning on interface k (also counted from the end) subtracts the depth of that interface from the depths and changes nothing else. Without depths the grid covers the whole interface; interfaces that do not exist are refused.",
     ["inputs", "configurations"], "all constants, thicknesses, roughnesses and depths for 0-2 films (4 in thorough), every alignment, both directions",
     "tests compare one profile with that of refnx",
     [ST], [("profile and alignment", ST + ":StructureSE.ri_profile")])
prop("C23", "Parameters of materials, layers, structures and models",
     "A number given for a thickness, roughness, solvent or mixing fraction, dispersion coefficient or delta offset becomes a parameter with that value that does not vary (fractions bounded by 0 and 1); a Parameter given is used itself. "
     "The parameters of a layer are its thickness, those of its material, roughness and solvent fraction (of a mixed layer: thickness, both materials, fraction, roughness), those of a structure are its layers' from front to back, then the solvent's, and those of a model are the delta offset, then the structure's, also after layers or the structure were replaced. "
     "Evaluating a model with a vector sets the parameters in that order, answers for those values and leaves them set. The extra log-probability of a model is the sum of its layers'. Models of anything but a structure are refused.",
     ["inputs", "histories", "configurations"], "all values; each argument a number, fixed or varying Parameter; layers inserted, removed and repeated after the model was made",
     "tests check a few parameter counts",
     [ST, DI, RM], [("layers", ST + ":SlabSE.__init__, MixedSlabSE.__init__"), ("materials", DI + ":parameters"), ("model", RM + ":ReflectModelSE.parameters, model, structure, logp")])
prop("C24", "Materials and layers of the user's own",
     "A material class of the user's that defines only a dielectric function of the photon energy (eV) has the index sqrt(epsilon(hc/wavelength)) at the wavelength asked for, or at its own wavelength when none is asked for; one that defines neither index nor dielectric function is refused. "
     "Such materials, and layers of the user's own that stand for several slabs or none, take part in structures and models, also as solvents, reversed and solvated, exactly as the bundled ones do; structures still have to start and end with plain slabs.",
     ["inputs", "configurations"], "every dielectric function and index (uninterpreted), all wavelengths, thicknesses, roughnesses and fractions; up to 5 slabs",
     "tests only use the bundled materials",
     [ST], [("index from dielectric function", ST + ":ScattererSE.complex, __complex__"), ("layers", ST + ":StructureSE.slabs")])
prop("C25", "Several objectives fitted together",
     "In a global objective the residuals of ellipsometry objectives follow one another in order, each times its multiplier, and the log-likelihoods add; each objective keeps its own mask and Delta convention, also when it shares its model with another. "
     "A parameter that several objectives share is listed once, and a vector of values sets each parameter for all of them. Objectives of another kind may take part.",
     ["inputs", "configurations"], "all data, model values, multipliers and parameter vectors of two objectives with two points each",
     "there is no test of combined objectives outside one notebook",
     [OB], [("residuals and likelihood", OB + ":ObjectiveSE.residuals, logl, setp, parameters"), ("convention", OB + ":ObjectiveSE.generative")])
prop("C26", "Copies and pickles answer as the original and are independent of it",
     "A deep copy or an unpickled pickle of a dataset, material, structure, model or objective (as made when a fit runs in several processes) gives the same data, indices, slab tables, Psi and Delta, residuals and log-posterior as the original, with the same settings (mask, Delta convention, mixing rule, direction, solvent, offset); "
     "changing one of the two afterwards leaves the other as it was, and parts that were shared inside the original are shared inside the copy.",
     ["inputs", "histories"], "all values; datasets of 2 points with any mask, five kinds of materials, structures of 4 layers with any settings, changes to either side after copying",
     "tests pickle one model and do not change the copy",
     [ST, DA, RM, OB, DI], [("copies", ST + ":StructureSE.__copy__, __init__"), ("state", DA + ":DataSE"), ("state", OB + ":ObjectiveSE")])
