"""The properties: single source for properties.jsonl and MANIFEST.json."""

PROPS = []
NOT_APPLICABLE = []


def P(id, title, statement, over, quant, why, files, mech, note=""):
    PROPS.append(dict(id=id, title=title, statement=statement, over=over, quant=quant, why=why, files=files, mech=mech, note=note))


PR = "src/halomod/profiles.py"
P("C01", "Density profiles: shape, normalisation, mass closure and coordinates",
  "For every density profile model, mass, concentration, redshift and shape parameter, the density has the published radial shape about the scale radius, has mean interior density (inside the virial radius) equal to the halo overdensity times the mean density, is zero outside the virial radius exactly for the truncated models, and its normalisations ('m', 'rho', none) differ by exactly the halo mass and the mean density. "
  "The cumulative distribution is the enclosed fraction of that density (0 at the centre, 1 at the virial radius, slope 4 pi r^2 rho). "
  "Radii given as r, x=r/r_s or s=r/r_vir, scalar or vector radii and masses, and implicit or explicit concentrations give the same numbers, with output indexed (radius, mass) and inputs unmodified. Integers are the same numbers as floats.",
  ["inputs", "configurations"], "all 12 profile models; 2 radii x 2 masses as free reals, concentrations in (0.5,40), arbitrary overdensity, mean densities and shape parameters",
  "Tests sample one mass/radius grid with one concentration model and compare loosely between models; the closure and coordinate identities must hold at every mass, radius and concentration.",
  [PR], [("Profile.rho / _rho_s / cdf / _h / _f", PR), ("ProfileInf", PR)])
P("C02", "Profile transforms: u(k|m) is the Fourier transform of the density",
  "For every profile model the Fourier-space profile equals the three-dimensional (spherical) Fourier transform of that same model's density at every wavenumber, mass and concentration, with the mass (or unit) normalisation at k->0 for truncated models. "
  "Wavenumbers given as k or kappa=k r_s, scalar or vector wavenumbers and masses, implicit or explicit concentrations, and any order of the inputs give the same numbers, indexed (wavenumber, mass). Integers are the same numbers as floats.",
  ["inputs", "configurations"], "all profile models; 2 wavenumbers x 2 masses as free reals, c in (0.5,40), k r_s in (1e-3,50) for closed forms",
  "Tests compare closed forms with numerical transforms at a few k for one concentration; the pair relation quantifies over all k, c and shape parameters.",
  [PR], [("Profile.u / _p and per-model overrides", PR)],
  "Meijer G functions are decided through the Mellin transform their parameters define; the table of the Einasto transform is arbitrary (its values are data). ")
P("C03", "Profile self-convolution is the convolution of the density with itself",
  "For every profile model offering a self-convolution (lam), its value at every separation, mass and concentration equals the three-dimensional convolution of that model's mass-normalised density with itself, and vanishes beyond twice the virial radius for truncated models; 'has_lam' tells whether it exists. "
  "Coordinates, normalisations, scalars and vectors are handled as for the density. Integers are the same numbers as floats.",
  ["inputs", "configurations"], "profiles with analytic lam; free separation, concentration and mass",
  "Tests never evaluate lam against the convolution integral; the closed forms are piecewise and hold or fail as functions of separation and concentration.",
  [PR], [("Profile.lam / _l", PR)])
HMD = "src/halomod/halo_model.py"
P("C04", "Halo radii, densities and the wiring of profiles into the halo model",
  "For every profile and mass definition, virial radius and mass are inverse to each other and close the mean density (mean_density * overdensity enclosed within the virial radius, at the redshift given), the scale radius is the virial radius over the concentration (times nu^(eta/2) where bloating is asked for), and the virial velocity is the circular one. A bloated halo is the same halo stretched: its density, enclosed mass, transform and self-convolution are those of the other at radii scaled by its own nu^(eta/2). "
  "The halo model builds halo and tracer profiles and their concentrations from its own current models, parameters, redshift and mass definition; the tracer's fall back to the halo's component by component when none is given.",
  ["inputs", "configurations"], "free masses, radii, overdensities and redshifts; every combination of tracer/halo model given or not",
  "Tests exercise one mass definition at one redshift; fallbacks of tracer models are pairwise choices tests do not cross.",
  [PR, HMD], [("Profile.halo_mass_to_radius / halo_radius_to_mass / scale_radius / virial_velocity", PR), ("halo_profile / tracer_profile / tracer_concentration", HMD)])
BI = "src/halomod/bias.py"
CO = "src/halomod/concentration.py"
P("C05", "Halo bias models: published forms, peak-background consistency and wiring",
  "Every linear bias model gives its published function of peak height for every parameter value (each parameter alone, the rest at the published defaults), the models derived from a mass function satisfy the peak-background-split relation b(nu) = 1 - (2/delta_c) dlog(f)/dlog(nu) - 1/delta_c with the mass function they are paired with, quasi-linear corrections multiply as published, "
  "scale-dependent corrections tend to unity at large scale with the published form, and the halo model evaluates its bias from its own current peak heights, threshold, spectral index, mean density and mass definition; colossus biases use their own cosmology (named or not), whichever cosmologies colossus was given since.",
  ["inputs", "configurations"], "all bias models; 2 peak heights as free reals in (0.05,20), all parameters free in a box about their published values",
  "Tests compare pairs of models at one redshift on one mass grid with loose tolerances; the published forms and the split identity are functions of nu and of every parameter.",
  [BI, HMD], [("Bias subclasses", BI), ("ScaleDepBias", BI), ("DMHaloModel.bias / halo_bias", HMD)])
P("C06", "Concentration-mass relations: published forms, implicit definitions and wiring",
  "Every concentration-mass relation returns, for every mass, redshift and parameter value, its published form: power laws with the coefficients of the stated mass definition and sample, the collapse-redshift definition of Bullock et al. (growth and variance agree at collapse, never later than the halo), the non-linear mass as the root of sigma(M)D(z)=delta_c, both sides of Ludlow's implicit relation agreeing at the value returned, and Ludlow's empirical fit. "
  "A parameter given by the user (zero included) replaces the published value and nothing else; the redshift defaults to zero; the interpolating wrapper leaves defined values unchanged and fills gaps positively; colossus relations receive the model's cosmology and redshift, whichever cosmologies colossus was given since; the halo model builds the relation from its own current quantities. A mass has the concentration it has alone, among others and in any order of the masses (filled gaps aside). Integers are the same numbers as floats.",
  ["inputs", "configurations"], "all relations; 2 masses in (1e8,1e16), z in [0,4], all parameters free in boxes; power-law variance and linear/EdS growth for implicit ones",
  "Tests check monotonicity and one or two values; coefficients per mass definition, falsy parameters and implicit roots need every input.",
  [CO, HMD], [("CMRelation subclasses", CO), ("interp_concentration / make_colossus_cm", CO), ("DMHaloModel.halo_concentration", HMD)])
HO = "src/halomod/hod.py"
CR = "src/halomod/cross_correlations.py"
TO = "src/halomod/tools.py"
P("C07", "HOD models: published mean occupations",
  "For every occupation model, parameter value and halo mass, the mean number (or amount) of central and satellite tracers is the published function of mass, zero exactly below/above the sharp cuts the model has (boundary included on the published side), the total is their sum, centrals of number models lie between 0 and 1, masses are not modified, repeated evaluation gives the same, "
  "the reported minimum mass depends only on the parameters, parameters left out have the published values, a model says that its cut is sharp exactly when it is, and the unit conversion to brightness temperature is the published one at the redshift given. Integers are the same numbers as floats.",
  ["inputs", "configurations"], "all 11 HOD models, with and without the central condition; 2 free masses in (1e9,1e16), every parameter free in a box",
  "Tests evaluate a few models at default parameters on one grid; cuts, boundaries and each parameter's role need every mass and parameter.",
  [HO], [("HOD subclasses", HO)])
P("C08", "HOD second moments: pair counts, scatter and the central condition",
  "For every occupation model (including user models with arbitrary mean occupations) satellites are multiplied by the fraction of haloes with a central exactly when the central condition is enforced and not already inherent; satellite pairs are the Poisson second factorial moment; central-satellite pairs are <Ns> per central when the condition holds and <Nc><Ns> otherwise; all pairs are their sum; numbers times tracer per source give amounts; scatter is that of Poisson satellites and Bernoulli centrals, times the tracer per source; models without centrals have none anywhere. "
  "A tracer with amplitude A scales first moments and scatter by A and pairs by A squared, so no normalised statistic depends on A.",
  ["inputs", "configurations"], "arbitrary mean occupations and tracer amounts at 2 masses; central condition x inherent x tracer kinds",
  "Moment identities between methods must hold for any occupation a user supplies; tests cover one model's total.",
  [HO], [("HOD / HODPoisson / HODBulk / HODNoCentral", HO), ("Zehavi05Marked", HO)])
P("C09", "Cross-population pair counts",
  "For any two tracer populations and any correlation coefficients, cross pairs are products of means plus coefficient times both scatters (satellite pairs minus pairs of one source with itself), with the central taken from the population the term names; exchanging the populations exchanges the two central-satellite terms and nothing else; constant coefficients default to zero, and a population crossed with itself reproduces its auto pairs.",
  ["inputs", "configurations"], "arbitrary first and second moments of two populations at 2 masses, coefficients in [-1,1]",
  "Tests only cross identical populations with zero correlation, where the mix-ups cancel.",
  [CR], [("_HODCross / ConstantCorr", CR), ("CrossCorrelations.cross_hod", CR)])

P("C10", "Mock catalogues: populating haloes with galaxies",
  "Populating haloes gives each halo a central with probability of its mean number of centrals and Poisson satellites with its mean number, only in haloes with a central when one is required and then in the number that keeps the mean occupation; centrals come first, at the centres of their haloes; each satellite is listed with the halo it was drawn for, at the place the tracer's profile put it about that halo's centre with that halo's mass; "
  "in a periodic box every galaxy that leaves through a face comes back through the opposite one. A halo's profile places galaxies at the radius enclosing the drawn fraction of its mass in the drawn isotropic direction. Tracers without centrals or discrete satellites, and empty outcomes, are handled; inputs are not modified.",
  ["inputs", "histories"], "3 haloes with free masses, positions, occupations and amounts per source; outcomes of the draws enumerated (5 x 4), displacements free; boxes free",
  "Tests populate one catalogue and check its size; index bookkeeping, masks and wrapping depend on which haloes happen to host what.",
  [TO, PR], [("populate", TO), ("Profile.populate", PR)])
HE = "src/halomod/halo_exclusion.py"
P("C11", "Halo exclusion: which pairs of haloes make the two-halo term",
  "The two-halo integral of every exclusion model is the double integral over both halo masses (above the minimum mass given, wherever it lies between tabulated masses) of bias- and profile-weighted densities of exactly the pairs the model admits: all (NoExclusion), both virial radii at most half the separation (Sphere), sum of virial radii at most the separation (DblSphere), the published ellipsoid probability (DblEllipsoid), or masses up to the one at which the density of admitted pairs is matched (NgMatched). "
  "The modified density is the square root of the same double integral of the densities. Results are indexed (separation, wavenumber), with bias a function of mass or of separation and mass; compiled variants agree with the plain ones; touching haloes contribute nothing and far ones as if there were no exclusion; inputs are not modified. Integers are the same numbers as floats.",
  ["inputs", "configurations"], "3-5 masses a factor 8 apart, 2 separations anywhere between thresholds, 1-2 wavenumbers, free densities, integrands and biases, 4 minimum masses",
  "Tests compare extreme separations only; masks at intermediate separations, the minimum mass and the index order are not exercised.",
  [HE], [("Exclusion.integrate / density_mod / mask / prob", HE), ("compiled quadratures", HE)])
P("C12", "Extended splines: exact data, documented continuation",
  "A spline of data returns those data at their coordinates, interpolates in the logarithmic or linear space asked for (scalars, vectors and integers alike), and beyond each end follows exactly the continuation asked for: the power law of the end points (whatever the sign of the data), a constant, a power of the user's choice, zero, an error, or a user function (matched to the end value, or to its amplitude, when matching is asked for). Each end, and each bound, is handled by its own setting only; the input data are not modified.",
  ["inputs", "configurations"], "data of 4-5 free ordinates on free increasing coordinates; every combination of end treatments; query anywhere",
  "Power spectra are used far outside their table; tests evaluate a couple of queries of one smooth positive function.",
  [TO], [("ExtendedSpline", TO), ("_zero / norm_warn", TO)])
P("C13", "Spline integrals over mass and wavenumber",
  "The spline quadrature returns the exact integral of any cubic (in log coordinate) integrand between the limits given, zero included as a limit, missing limits standing for the ends of the table, is additive and linear, and integrates each column of a table independently.",
  ["inputs", "configurations"], "free abscissae, ordinates and limits; tables of 5-6 points, 2 columns",
  "The integral underlies every mean density and 1-halo term; only its composition with one model is tested.",
  [TO], [("spline_integral", TO)])
P("C14", "Transforms between power spectra and correlation functions",
  "The Ogata quadratures return the published weighted sum of the function at the published nodes, divided by the variable, with the three-dimensional Fourier normalisation of their direction (forward and reverse differ by 8 pi^3), for one function or one per variable; undefined values count as zero; summation stops only when two successive sums agree within the tolerances or at the last useful node; tables are interpolated inside their range and continued beyond it as a power (positive data, when asked) or a line. "
  "The direct transform is the defining integral over a range ending beyond the zeros it needs; the exclusion window is the volume average of sin(kr)/(kr). Inputs are not modified.",
  ["inputs", "configurations"], "2-4 quadrature nodes; free functions at those nodes / free tables of 4 points; free separations",
  "Tests transform a few smooth spectra to within tolerances that hide lost nodes, ends and normalisations of other branches.",
  [TO], [("hankel_transform", TO), ("power_to_corr_ogata / corr_to_power_ogata", TO), ("power_to_corr", TO), ("exclusion_window", TO)])
P("C15", "Two-point statistics of matter",
  "The 1-halo matter power is the integral of dndm m^2 u(k|m)^2 over the mean density squared (leaving out small haloes below the turnover when asked for) and its correlation the transform, or the self-convolution integral, minus one for every kind of profile; linear and non-linear spectra are their tables continued by the spectral index; the halo-centre power is the one named, filtered up to the first zero of its filter. "
  "The 2-halo term is the exclusion integral times modified density, debiasing and halo-centre power, built from the model's own masses, densities, biases (scale dependent or not) and separations, and follows the (biased) linear power on the largest scales, zero pairs on the smallest with exclusion, and a power law without; power with exclusion is the transform of its correlation. "
  "Totals are the sums of the terms, so that only the 2-halo term remains at large separations; effective bias is the mass-weighted mean; halo-halo power uses the biases of the requested mass ranges. Separations are those given, or evenly spaced from the minimum to the maximum (in the logarithm if asked); unknown halo-centre spectra and empty ranges are refused. No input table is modified.",
  ["inputs", "configurations"], "5 masses, 4 wavenumbers, 4 separations; mass function, profiles, biases, spectra and transforms arbitrary",
  "Regression tests pin scalars of the default model only; every other kind of profile, spectrum, exclusion and range is compared with nothing.",
  [HMD], [("DMHaloModel power/correlation properties", HMD), ("_get_power_2h_primitive / _get_corr_2h_auto_fnc / _get_power_2h_auto_fnc", HMD), ("power_hh", HMD)])
P("C16", "Statistics of tracers: densities, fractions, biases and correlations",
  "The mean tracer density, effective bias and mass, and satellite and central fractions are the occupation-weighted integrals over the halo mass function from the tracer's minimum mass (when its cut is sharp and satellites need a central, with unit centrals; the lowest mass otherwise); fractions add to one. The 1-halo power and correlation count satellite and central-satellite pairs per volume over the density squared, with the tracer's own profile; parts of the correlation are pairs minus one and totals the sum of pairs, zero where pairs have died out, for every kind of profile. "
  "The 2-halo term uses the tracer's weights, minimum mass and bias and is never debiased; cross terms with matter put centrals at halo centres and satellites on their profile; totals are sums of terms. A tracer density asked for fixes the minimum mass above which that density lies. No table is modified.",
  ["inputs", "configurations"], "5 masses, 4 wavenumbers, 4 separations; 4 kinds of mass cut; free mass function, occupations, pair counts, profiles, biases; mass integral and transform arbitrary positive linear functionals",
  "Regression tests pin scalars of one occupation model; the others (sharp cuts, no self-convolution, scale-dependent bias, cross terms) are compared with nothing.",
  [HMD], [("TracerHaloModel densities, fractions and biases", HMD), ("1-halo and 2-halo tracer power/correlation", HMD), ("tracer-matter cross terms", HMD), ("_find_m_min / _tm", HMD)])
P("C17", "Cross-correlation of two tracer populations",
  "The 1-halo cross power counts satellite-satellite, satellite-central and central-satellite cross pairs, the satellites of each population on its own profile, over both mean densities, leaving out masses at which pairs are undefined; the 2-halo cross power is the product of both bias-weighted populations, each on its own mass grid from its own minimum mass, times the halo-centre power, and follows the linear power on the largest scales. "
  "Exchanging the populations (with their cross pairs) changes nothing; correlations are the transforms of their powers, zero beyond the table; the total power is the sum of both terms and the total correlation one plus both excesses; each population is built once from its own parameters and results are at the coordinates of the first model. No table is modified.",
  ["inputs", "configurations"], "two populations with free tables at 4-5 masses, 4 wavenumbers, 4 separations; minimum masses absent, at and between grid masses; mass quadratures arbitrary positive linear functionals",
  "Tests cross a model with itself at default parameters; which population's table enters each term cancels there.",
  [CR], [("CrossCorrelations", CR)])
IC = "src/halomod/integrate_corr.py"
WD = "src/halomod/wdm.py"
P("C18", "Projected correlation function",
  "The projected correlation at each projected separation r_p is twice the line-of-sight integral of xi(x) x / sqrt(x^2 - r_p^2), with xi the cubic interpolation of the given table, up to the line-of-sight limit (a three-dimensional separation), leaving out only the part closer to r_p than 1e-4 of the peak of the integrand for the logarithmic slope at r_p (never taken flatter than 1.3); it is the same for lists, integers and floats. "
  "The model projects its own tracer correlation; its projected separations are those given, or evenly spaced (in the logarithm or not) from the minimum to the maximum inclusive; the limit is the one given, or at least 80 and five times the largest separation; the three-dimensional separations cover the range from the smallest projected one to the limit. No table is modified.",
  ["inputs", "configurations"], "tables of 2-4 separations with free amplitude and slopes, 1-3 free projected separations (in, below and beyond the table, in any order), free limits; xi between table points and the quadrature arbitrary",
  "The only tests compare one default model with stored numbers at 2% and check that it runs.",
  [IC], [("projected_corr_gal / _get_theta", IC), ("ProjectedCF", IC)])
P("C19", "Angular correlation function",
  "The angular correlation is the Limber integral w(theta) = 2 int dx p1 p2 int du xi(sqrt(u^2 + x^2 theta^2)) over comoving distances in Mpc/h between the redshift limits, with distributions of redshift turned into distributions of distance by (dx/dz)^2, each normalised by its own integral over the sample unless it is already or the check is off, and the second defaulting to the first. "
  "The tracer and matter versions of the model use their own correlation, distributions, cosmology and grids; the default distribution is flat in redshift between the model's current limits and zero outside; grids of redshift, distance, angle and separation cover exactly their limits, and the separations at which the model tabulates xi cover every one the integral needs.",
  ["inputs", "configurations"], "2 angles, 4 redshifts, 3 separations (thorough 3, 6, 5); correlation, distributions and expansion history arbitrary functions; free limits, h and distances",
  "Tests use one flat distribution, a power-law xi and one cosmology, with tolerances of percents.",
  [IC], [("angular_corr_gal / _check_p / flat_z_dist / dxdz", IC), ("AngularCF", IC)])
P("C20", "Warm dark matter",
  "The fraction of matter in haloes is the comoving density in haloes over the comoving mean density at every redshift, and what is not in haloes is smooth. The smooth component is biased so that matter as a whole is unbiased; smooth-smooth, smooth-halo and halo-halo powers are the halo-centre power with the respective biases and halo profiles, and the total is their sum weighted by the fractions, so that it is the halo-centre power on the largest scales. "
  "A warm concentration relation is the original times (1 + g1 m_hm/m)^-g2 (1+z)^(b0 z - b1) with the half-mode mass of the model's own particle, and defining one changes nothing in the original. The tracer and projected versions have all of these.",
  ["inputs", "configurations"], "5 masses, 3 wavenumbers; free mass function, biases, profiles, densities, fraction, redshift, half-mode mass; mass quadratures arbitrary positive linear functionals",
  "The only tests compare the sign of the concentration difference at z = 0.",
  [WD], [("HaloModelWDM", WD), ("CMRelationWDMRescaled", WD), ("TracerHaloModelWDM / ProjectedCFWDM", WD)])
P("C21", "A model always reflects its current parameters",
  "After any sequence of updates, every quantity of a framework (tracer halo model, projected and angular correlation, cross-correlation of two models) equals that of a model newly built with the resulting parameters: quantities are recomputed when anything they depend on changes, whichever choices of models, spectra, limits or tables were made before, after or between the updates, and in whatever order they were first evaluated. "
  "Updates of parameter dictionaries merge, an empty dictionary clears; models built from the same dictionaries, clones and the caller's dictionaries are independent of each other; taking a change back restores every quantity; evaluating quantities changes none of the parameters. A model has the parameters it was given and the published ones for the others; get_halomodel yields each combination of the lists of parameters once, as if built for it alone; a tracer density asked for decides the minimum mass until one is asked for.",
  ["histories", "configurations"], "60 histories of a tracer model, 18 of projected/angular ones and 3 of cross-correlations: a switch of what is computed and 13-25 single changes with every quantity evaluated in between; all parameter values; component models, quadratures, transforms and the quantities of hmf arbitrary functions of everything given to them",
  "Dependencies are recorded at the first evaluation, so a quantity goes stale only after a particular history: a branch not taken the first time, a shared dictionary, a plain attribute. Tests build a model and update once or twice.",
  [HMD, IC, CR], [("DMHaloModel / TracerHaloModel cached quantities and parameters", HMD), ("ProjectedCF / AngularCF", IC), ("CrossCorrelations.update", CR)])
