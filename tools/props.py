"""The properties: source of properties.jsonl and MANIFEST.json (see gen.py)."""

INTRO = "python API; the check imports the package from /repo/src"
TRUST = (
    "Only the executions the workloads generate are judged (seeded random strata plus special "
    "values, see the evidence file); numpy/jax arithmetic and the reference formulas are trusted. "
)


def P(id, title, statement, forall, why, files, mech, at, technique, note, over=("inputs",)):
    return dict(id=id, title=title, statement=statement, over=list(over), forall=forall, why=why,
                files=files, mech=mech, at=at, technique=technique, note=TRUST + note)


K = "orbits/keplerian.py"
ST = "starry/"
PROPS = [
    P("C01", "Kepler's equation is solved to rounding for every anomaly and eccentricity",
      "For every finite mean anomaly M and eccentricity 0 <= e < 1, the solver returns the sine and "
      "cosine of the true anomaly that satisfies Kepler's equation, to the accuracy the conditioning "
      "of the inputs permits in the active floating point precision, including many revolutions away "
      "from zero, at the apsides and for e close to 1. The result lies on the unit circle, is odd in "
      "M and 2 pi periodic, does not depend on how the inputs are batched or transformed, and its "
      "first and second derivatives with respect to M and e are those of the exact solution.",
      "every M (any sign, up to many revolutions), every e in [0, 1), both precisions, every batching",
      "The tests compare a coarse grid of (M, e) at moderate tolerance; a start value, one of the "
      "refinement terms or a branch can be wrong in the gaps, near multiples of pi or as e -> 1.",
      ["core/kepler.py"],
      [("starter and single refinement step", "core/kepler.py kepler_solver_impl"),
       ("implicit derivative rule", "core/kepler.py kepler jvp")],
      ["core.kepler.kepler(M, e)"],
      "stratified stress workload under a long double oracle with condition-number tolerances",
      "Both precisions; tolerance 8 eps times the condition number."),
    P("C02", "Two-body orbits obey Newtonian dynamics",
      "For every central star and massive body, the positions and velocities returned at any time are "
      "those of a Newtonian two-body orbit in the documented frame (observer along +z): velocities are "
      "the time derivatives of positions, Kepler's third law, energy, angular momentum and the "
      "eccentricity vector are conserved, the barycentre is at rest and relative means body minus star. "
      "Positions converted with a parallax are angles proportional to it.",
      "all masses, periods or semi-major axes, eccentricities 0..0.95, orientations, epochs and times",
      "Tests sample a few orbits against another package; frame, sign or mass-fraction errors appear "
      "only for particular orientations, eccentricities or mass ratios.",
      [K], [("true anomaly and rotation into the sky frame", K + " OrbitalBody"),
            ("mass fractions of star and body", K + " central_position, position")],
      ["System / OrbitalBody positions and velocities"],
      "conservation-law and derivative monitors over recorded trajectories, plus reference orbit",
      "x64."),
    P("C03", "Every accepted orbit parametrisation describes the same documented orbit",
      "Every accepted combination of epoch (transit or periastron time, or neither), size (period or "
      "semi-major axis), inclination (angle, impact parameter, or edge-on), eccentricity with angle or "
      "sine and cosine of periastron, ascending node likewise, and optional mass yields the orbit and "
      "the derived attributes those elements imply, in plain numbers or any compatible units. At the "
      "transit time the body is in front of the star at inferior conjunction with separation equal to "
      "the impact parameter (in stellar radii); contradictory or missing specifications, and arrays "
      "where scalars are required, raise an error.",
      "the 324 parametrisations x all element values x unit choices",
      "Tests cover a handful of parametrisations; the conversions interact (impact parameter with "
      "eccentricity and omega, epoch with omega at special angles).",
      [K], [("conversion of the body's parameters", K + " OrbitalBody.__init__"),
            ("validation", K + " Body.__check_init__"), ("central body", K + " Central")],
      ["Central, Body, System.add_body and the attributes and positions of the system's bodies"],
      "all parametrisations executed under a reference-orbit oracle",
      "All 324 parametrisations are executed every time.", ("inputs", "configurations")),
    P("C04", "Radial velocities follow the documented Keplerian curve and sign",
      "The stellar radial velocity due to a body is K [cos(omega + f) + e cos(omega)] with positive "
      "values for motion away from the observer, where K is what the masses imply, or the "
      "semi-amplitude stored on the body, or the one passed to the call, which takes precedence. The "
      "star's velocity is minus its z velocity in the frame of positions, body and relative velocities "
      "are in the reflex ratio to it, and a system returns one curve per body.",
      "all orbits (e 0..0.95), all three sources of K, any compatible velocity units, any times",
      "Tests fix one or two orbits; sign, frame and K precedence interact with omega, inclination > 90 "
      "degrees and mass-less bodies.",
      [K], [("semi-amplitude", K + " OrbitalBody.radial_velocity"),
            ("velocities scaled by K", K + " _get_position_and_velocity")],
      ["radial_velocity and velocity methods of the system and its bodies"],
      "closed-form oracle over orbit histories", "x64."),
    P("C05", "A system of bodies behaves as its bodies one by one, in order",
      "Mapping a function over a system or stack of 1..n bodies gives the per-body results stacked "
      "along the requested output axis, for any input and output axes, whether or not the bodies have "
      "identical structure; position, velocity and other observables of a system equal those of each "
      "body alone, in the order of addition. Adding a body returns a new system and leaves the "
      "original unchanged, and all of it holds under jit, vmap and grad.",
      "all mixtures of body structures, numbers of bodies, axes specifications and construction orders",
      "Homogeneous systems take one path, heterogeneous another; tests run few mixtures and no negative "
      "or nested axes.",
      ["object_stack.py", K], [("stacked versus looped mapping", "object_stack.py ObjectStack.vmap"),
                               ("body bookkeeping", K + " System")],
      ["ObjectStack.vmap / System.body_vmap, system observables"],
      "differential monitor: each mapped call against the per-object calls stacked by numpy",
      "x64.", ("inputs", "programs", "configurations")),
    P("C06", "The limb darkened flux is exactly one minus the occulted light",
      "For every polynomial limb darkening profile, separation b and occultor radius r >= 0, the light "
      "curve is minus the fraction of the star's light behind the occultor, to near rounding once the "
      "quadrature order is high enough and to 1e-6 relative to the profile for planets at the default order; "
      "this includes grazing, concentric, equal and larger discs and exact contacts. It is exactly "
      "zero without overlap, minus one when the star is covered, depends on the sign of b not at all, "
      "and broadcasts over b and r.",
      "all u of degree 0..10, b in any range, r from 0 to many stellar radii, both precisions",
      "The tests compare against another package on modest grids; region boundaries (|1-r|, 1+r, r=b, "
      "b=0, r=1) are points of measure zero.",
      ["core/limb_dark.py"], [("case analysis of the overlap", "core/limb_dark.py kappas, s0s2"),
                              ("quadrature of higher terms", "core/limb_dark.py p_integral"),
                              ("normalisation of the coefficients", "core/limb_dark.py light_curve")],
      ["core.limb_dark.light_curve(u, b, r, order)"],
      "stratified stress under a long double ring-quadrature oracle",
      "Tolerances 1e-9 or better away from the r < 1e-3 regime."),
    P("C07", "The limb darkened flux has the right finite gradient everywhere",
      "The derivatives of the limb darkened light curve with respect to separation, radius ratio and "
      "limb darkening coefficients are finite for every finite input with b >= 0 and r >= 0, also exactly at contacts, "
      "concentric or coinciding limbs and without overlap, where those in b and r vanish. Wherever the derivative exists and is not within 1e-5 of a "
      "contact it equals the exact derivative, in forward and in reverse mode, also through an orbit.",
      "all u, b and r as for the flux",
      "Tests check gradients at a handful of points; nan from sqrt(0), arctan2(0, 0) or masked "
      "branches appear only at isolated inputs.",
      ["core/limb_dark.py", "utils.py", "light_curves/limb_dark.py"],
      [("safe square root", "utils.py zero_safe_sqrt"),
       ("masked branches", "core/limb_dark.py kappas, s0s2, p_integral")],
      ["jax.grad / jax.jvp of core.limb_dark.light_curve and light_curves.limb_dark.light_curve"],
      "finiteness monitor plus closed-form derivative oracle in long double",
      "x64 and f32 (finiteness)."),
    P("C08", "A system's light curve is the flux its geometry implies, at every time",
      "The limb darkened light curve of any orbit reports for every body, in order, the relative flux "
      "hidden when the body is in front of the star and exactly zero when it is behind, for every time "
      "shape and time unit. The emission light curve reports the flux of the star followed by that of "
      "each body: each emitting body contributes its amplitude reduced by what the star hides, a body "
      "without a surface nothing, and the star its amplitude.",
      "all systems of 0..4 bodies on Keplerian or transit orbits, coefficients of degree 0..4, times",
      "Tests use one system at a time on coarse grids; in-front logic, per-body radii and broadcasting "
      "break on particular combinations.",
      ["light_curves/limb_dark.py", "light_curves/emission.py", "light_curves/utils.py"],
      [("in-front mask", "light_curves/limb_dark.py light_curve"),
       ("time vectorisation", "light_curves/utils.py vectorize"),
       ("secondary eclipses", "light_curves/emission.py light_curve")],
      ["light_curves.limb_dark.light_curve(orbit, u)(t), light_curves.emission.light_curve(system)(t)"],
      "end-to-end oracle: independent orbit plus independent occultation integral",
      "x64."),
    P("C09", "A transit-parametrised orbit moves as its period, duration and shape say",
      "An orbit given by period, duration or speed, transit time, impact parameter and radius ratio "
      "moves on a straight line at constant speed through every transit: it is at its impact parameter at "
      "each transit time plus any multiple of the period, in front of the star exactly within half a "
      "duration of it, and at separation one plus the radius ratio at the first and last contact. "
      "Defaults, derived attributes, units and shapes of positions are consistent for scalar and "
      "multi-planet orbits; missing duration and speed, or wrong units, are refused.",
      "all scalar and 1..5 planet orbits with the transit shorter than the period, and all times",
      "Tests check a few parameter sets; wrap-around and duration/speed duality only show at particular "
      "phases and defaults.",
      ["orbits/transit.py"], [("duration to speed conversion", "orbits/transit.py TransitOrbit.__init__"),
                              ("phase wrapping", "orbits/transit.py TransitOrbit.relative_position")],
      ["TransitOrbit attributes and relative_position"],
      "closed-form oracle over times across many periods", "Both precisions."),
    P("C10", "Transit timing variations shift transits to the stated times",
      "An orbit with timing variations is at mid-transit exactly at each stated transit time (given "
      "directly, or as a linear ephemeris plus zero-mean offsets), moves around each as the plain transit orbit does "
      "around its own until halfway to the neighbouring transit, and continues periodically before the "
      "first and after the last. The linear ephemeris reported for given transit times is their "
      "least-squares fit by transit number and the offsets its residuals. The expected transit times of "
      "an interval are all and only those of the ephemeris inside it.",
      "1..4 planets, 3..30 transits each, arbitrary increasing transit times or offsets, index gaps, "
      "plain numbers or compatible units, observation times in, between, before and after transits",
      "Tests use one or two synthetic data sets with default indices; indexing and bin edges depend on "
      "the sequence.",
      ["orbits/ttv.py"], [("least-squares ephemeris", "orbits/ttv.py _compute_linear_ephemeris_single"),
                          ("nearest-transit lookup", "orbits/ttv.py _compute_bin_edges_values_single"),
                          ("expected times", "orbits/ttv.py compute_expected_transit_times")],
      ["TTVOrbit attributes and relative_position, compute_expected_transit_times"],
      "reference model of the nearest observed transit over random transit histories",
      "x64.", ("inputs", "histories")),
    P("C11", "Exposure integration is the time average of the light curve over the exposure",
      "Integrating a light curve over an exposure applies the selected normalised rule (midpoint resampling, "
      "trapezoid or Simpson on the requested number of samples made odd) centred on each time: it "
      "preserves constants, is exact for the polynomials the rule is exact for, linear in the light "
      "curve, and converges to the true mean. It keeps output shape, units, extra arguments and "
      "differentiability for any time shape and unit; no exposure means no change; a non-scalar "
      "exposure or unknown order is refused.",
      "all light curve functions (scalar, vector, N-d, with units, arguments), exposures, orders, samples",
      "Tests compare three settings on one light curve; stencil weights, axis handling and argument "
      "passing depend on shapes and sample counts.",
      ["light_curves/transforms.py", "light_curves/utils.py"],
      [("stencil", "light_curves/transforms.py integrate"),
       ("contraction", "light_curves/transforms.py apply_exposure_time_integration")],
      ["light_curves.transforms.integrate(func, ...)(time, ...)"],
      "instrumented probe functions record every evaluation; reference quadrature recomputed from the log",
      "x64.", ("inputs", "programs")),
    P("C12", "Interpolated light curves reproduce the grid and wrap with the period",
      "A pre-computed light curve equals, at every time and multiple of the period away, the linear "
      "interpolation of the original function on the requested number of equally spaced points across the window centred on the "
      "transit time, so it is exact on the grid and for functions linear across the window; outside "
      "a window shorter than the period it connects the last to the first value linearly over the wrap. Output shape, units and arguments bound at construction "
      "are kept for any time shape and unit, and the function is evaluated on the grid once.",
      "all functions (scalar, vector outputs, units; periodic ones when the window is the whole "
      "period), periods, epochs, windows, sample counts, times",
      "Tests use one orbit; wrap-around, offsets of the epoch and window edges depend on the values.",
      ["light_curves/transforms.py"], [("grid and wrapping", "light_curves/transforms.py interpolate")],
      ["light_curves.transforms.interpolate(func, ...)(time)"],
      "instrumented probe functions plus independent interpolation oracle", "x64.",
      ("inputs", "programs")),
    P("C13", "Unit handling converts exactly, defaults documented units, refuses mismatches",
      "Wherever the package declares units for an argument or field, quantities in any compatible unit "
      "arrive converted with unchanged physical value, plain values are taken to be in the declared "
      "unit (or refused in strict mode), nested structures are converted leaf by leaf, and undeclared "
      "or None-default arguments pass through untouched; incompatible dimensions, and units for "
      "variable arguments, raise an error. The astronomical units and constants have "
      "their IAU/CODATA values and the observables do not depend on the units inputs are expressed in.",
      "all signatures, call styles, nested structures, unit pairs, scalar/array/traced values",
      "Tests decorate a few toy functions; conversions combine with defaults, keyword order, pytrees and tracing.",
      ["units/decorator.py", "units/field.py", "units/registry.py",
       "units/astro_constants_and_units.txt"],
      [("argument conversion", "units/decorator.py QuantityInput"),
       ("field conversion", "units/field.py field"),
       ("definitions", "units/astro_constants_and_units.txt")],
      ["quantity_input, field, unit_registry, public functions taking quantities"],
      "recording functions under generated signatures; independent conversion table", "x64.",
      ("inputs", "programs")),
    P("C14", "The surface light curve is the intensity integrated over the visible disc",
      "For every surface map, orientation (inclination, obliquity, phase), limb darkening and position "
      "and size of an occultor in front or behind, the surface light curve equals the projected "
      "intensity integrated over the visible unocculted disc, normalised so that a uniform unit-amplitude "
      "unocculted sphere has flux one. This covers no overlap, partial, complete and annular occultation and both equal-limb and "
      "small-occultor geometry, and at sufficient quadrature order holds to near rounding.",
      "maps of degree 0..6, limb darkening of degree 0..3, all orientations, x, y, z and r in 0..30",
      "Tests compare against precomputed starry values for few degrees and geometries.",
      [ST + "light_curves.py", ST + "core/solution.py", ST + "core/basis.py"],
      [("flux assembly", ST + "light_curves.py surface_light_curve"),
       ("occultation integrals", ST + "core/solution.py solution_vector"),
       ("basis changes", ST + "core/basis.py")],
      ["surface_light_curve(surface, r, x, y, z, theta)"],
      "oracle: independent spherical-harmonic synthesis and 2-D ring quadrature of the visible disc", "x64."),
    P("C15", "Surface flux is linear in the map and scales with its amplitude",
      "The surface light curve is linear in the map's coefficients for fixed amplitude and geometry, "
      "proportional to the surface amplitude in every geometry, and unchanged when map and occultor are rotated together "
      "on the sky. A uniform limb darkened surface gives the same transit as the limb darkened light "
      "curve, an occultor behind the surface has no effect, and the flux is continuous across contacts.",
      "all maps, amplitudes, limb darkening, geometries and rotations",
      "Metamorphic relations quantify over pairs of inputs that tests never pair.",
      [ST + "light_curves.py", ST + "surface.py", ST + "core/rotation.py"],
      [("branch for uniform and limb darkened maps", ST + "light_curves.py surface_light_curve"),
       ("amplitude", ST + "surface.py Surface")],
      ["surface_light_curve, core.limb_dark.light_curve"],
      "metamorphic monitors over paired executions", "x64."),
    P("C16", "Rotating a map is the rotation of its intensity, for every axis and angle",
      "Rotating the spherical-harmonic coefficients by any axis and angle gives the map whose intensity "
      "at a rotated point equals the original's at the point. Rotations compose, invert, "
      "preserve the norm and each degree, are the identity at multiples of 2 pi, and the alternative "
      "implementations and the projection onto the sky agree with it for every inclination, "
      "obliquity and phase.",
      "all degrees up to 12, all axes (including coordinate axes and both signs) and angles",
      "Tests compare a few axes with a symbolic reference; sign and branch errors live on special axes "
      "and angles.",
      [ST + "core/rotation.py", ST + "core/s2fft_rotation.py", ST + "multiprecision/rotation.py"],
      [("Wigner matrices", ST + "core/rotation.py dot_rotation_matrix"),
       ("z rotations", ST + "core/rotation.py dot_rz"),
       ("sky projection", ST + "core/rotation.py left_project")],
      ["dot_rotation_matrix, dot_rz, left_project, right_project"],
      "oracle: independent harmonic synthesis at rotated points; algebraic law monitors", "x64 (f32 for laws)."),
    P("C17", "Basis changes and polynomial algebra represent the same function",
      "Converting spherical-harmonic coefficients to the polynomial basis yields the same intensity at "
      "every point of the visible disc, limb darkening coefficients convert to the documented "
      "profile, and the products, sums and dense/sparse conversions of polynomials evaluate to the products, sums and "
      "same values pointwise. The Green's basis and "
      "the solution vectors of degree one or more integrate each basis term over the disc and over the part not occulted.",
      "all degrees up to 12, all coefficient vectors and points, all occultor positions",
      "Tests compare matrices with symbolic ones at low degree.",
      [ST + "core/basis.py", ST + "core/polynomials.py", ST + "core/solution.py"],
      [("spherical harmonic to polynomial", ST + "core/basis.py A1"),
       ("Green's basis", ST + "core/basis.py A2_inv"), ("limb darkening", ST + "core/basis.py U"),
       ("products", ST + "core/polynomials.py Pijk, polynomial_product_matrix"),
       ("disc integrals", ST + "core/solution.py rT, solution_vector")],
      ["A1, A2_inv, U, poly_basis, Pijk, polynomial_product_matrix, rT, solution_vector"],
      "pointwise evaluation and quadrature oracles", "x64."),
    P("C18", "Map algebra evaluates pointwise and converts without loss",
      "A map built from sparse or dense coefficients holds exactly those coefficients, converts both ways "
      "without loss and normalises to a unit leading coefficient (refusing a zero one). "
      "Scaling and multiplying maps gives the map whose intensity is the multiple or (up to the constant of the basis, sqrt(pi)/2) the product of the intensities, "
      "a limb darkening law converts to the map with that face-on profile, and "
      "the Wigner 3j and Clebsch-Gordan coefficients behind it have their exact values and symmetries.",
      "all coefficient sets up to degree 8, all limb darkening laws up to degree 5, all integer j, m",
      "Tests check single examples; products mix all pairs of degrees and orders.",
      [ST + "ylm.py", ST + "core/wigner3j.py"],
      [("container and arithmetic", ST + "ylm.py Ylm"), ("product", ST + "ylm.py Ylm.__mul__"),
       ("coupling coefficients", ST + "core/wigner3j.py Wigner3jCalculator")],
      ["Ylm construction, conversion, arithmetic, from_limb_darkening; Wigner3j, clebsch_gordan"],
      "pointwise intensity oracle; exact rational Wigner reference", "x64.", ("inputs", "programs")),
    P("C19", "A spot darkens the stated place by the stated contrast and size",
      "The spot expansion is the least squares Legendre fit at its degree of a circular region of the given angular radius, smoothed over 2/degree radians, "
      "with the given contrast: symmetric about the spot's centre, placed at the given latitude and longitude, "
      "linear in the contrast, leaving the flux unchanged at zero contrast, with the contrast reached at the centre of spots the degree "
      "resolves (radius above 5/degree) and the unspotted level away from it.",
      "all latitudes and longitudes including poles, radii the degree resolves, contrasts of either sign, degrees 5..20",
      "Tests compare one spot with a stored result.",
      [ST + "ylm.py"], [("spot expansion and placement", ST + "ylm.py ylm_spot")],
      ["ylm_spot(ydeg)(contrast, r, lat, lon) and the intensity of the surface it makes"],
      "pointwise intensity oracle, Legendre least-squares reference and rotation symmetry monitors", "x64."),
    P("C20", "Reported intensities and rendered images agree with the map",
      "The intensity reported at a latitude and longitude is the map's there, with limb darkening "
      "according to the angle from the observer's line of sight and the surface amplitude, and the rendered image shows at each pixel of the "
      "projected disc the intensity of the point of the surface seen there for any inclination, obliquity and phase, "
      "with nothing outside the disc.",
      "all surfaces (degree 0..8), orientations, limb darkening, image resolutions",
      "Tests render for smoke only.",
      [ST + "surface.py", ST + "core/rotation.py"],
      [("intensity", ST + "surface.py Surface.intensity"), ("image", ST + "surface.py Surface.render")],
      ["Surface.intensity, Surface.render"],
      "oracle: independent harmonic synthesis at projected points", "x64."),
    P("C21", "The Doppler signal is the intensity-weighted velocity of the visible surface",
      "The radial velocity of a rotating surface is the mean of its line-of-sight velocity (rigid "
      "rotation at 2 pi R / P with the documented differential shear, red shift positive) weighted by the visible, unocculted intensity. A system "
      "adds it to the orbital radial velocity of the star, sums the effect of all bodies, and "
      "surfaces without a rotation period add nothing.",
      "all unit-amplitude maps, inclinations, obliquities, phases, shears, occultors and systems of 0..3 bodies",
      "Tests compare with stored values for one star.",
      [ST + "doppler.py", ST + "surface.py"],
      [("velocity map", ST + "doppler.py surface_radial_velocity"),
       ("system sum", ST + "doppler.py radial_velocity")],
      ["surface_radial_velocity, doppler.radial_velocity"],
      "oracle: ring quadrature of intensity times velocity over the visible disc", "x64."),
    P("C22", "System surface light curves combine the right bodies, phases and geometry",
      "For a star with bodies carrying surfaces, the system light curve reports the star's flux with "
      "each body's occultation and then each body's own flux with the star's occultation of it, every "
      "surface rotated to its phase at that time and each occultor at its sky position and relative "
      "size at that time. It holds for any number of bodies, with or without surfaces, periods and amplitudes, any time "
      "shape, and agrees with the direct surface light curve of each pair.",
      "all systems of 0..3 bodies, surfaces, periods, times",
      "Tests use one system.",
      [ST + "light_curves.py", ST + "orbit.py", ST + "system_observable.py"],
      [("pairing of bodies", ST + "light_curves.py light_curve"),
       ("mapping of a surface observable", ST + "system_observable.py")],
      ["starry.light_curves.light_curve(system)(t)"],
      "differential monitor against pairwise evaluation with independent geometry", "x64."),
    P("C23", "Results do not depend on transformations, batching, threads or call history",
      "Every public observable returns the same values eagerly, jitted (with arguments or constants), vmapped and in any batch "
      "composition, whatever other calls were made before, from however many threads concurrently, and "
      "for any order of evaluation. Forward and reverse mode derivatives agree with each other and inputs are never modified.",
      "all public observables x transformations x call histories x thread schedules",
      "Tests call each function once in a fresh order; caches of basis matrices and traced constants "
      "leak only across calls, dtypes or threads.",
      ["object_stack.py", "light_curves/utils.py", ST + "core/rotation.py", ST + "core/basis.py",
       ST + "core/wigner3j.py", ST + "core/polynomials.py"],
      [("caches", ST + "core/wigner3j.py, " + ST + "core/basis.py"),
       ("vectorisation", "light_curves/utils.py vectorize")],
      ["all public observables"],
      "recorded call histories replayed under random interleavings in threads and against fresh processes", "x64.",
      ("programs", "histories", "schedules")),
    P("C24", "The arbitrary precision reference agrees with the fast path and its cache",
      "The arbitrary precision implementation of rotations, basis changes, occultation integrals and flux agrees with the "
      "double precision one to the accuracy of the latter in all geometries it supports, converges with the working precision, and "
      "returns the same numbers whether or not its caches hold results of earlier calls with other degrees or angles.",
      "degrees 0..6, limb darkening 0..2, all orientations and occultor geometries, call histories, precisions",
      "Tests compare a few geometries per function in a fixed order.",
      [ST + "multiprecision/flux.py", ST + "multiprecision/rotation.py",
       ST + "multiprecision/basis.py", ST + "multiprecision/solution.py"],
      [("caching", ST + "multiprecision/utils.py"), ("flux", ST + "multiprecision/flux.py flux")],
      ["starry.multiprecision functions"],
      "differential monitor (two implementations plus independent quadrature) over random call histories", "x64.",
      ("inputs", "histories")),
    P("C25", "Surface observables have the right derivatives",
      "The derivatives of the flux, the radial velocity and the intensity of a surface with respect to "
      "its map, limb darkening, amplitude, inclination, obliquity, phase and period, to a place on it, and to the "
      "position and size of the occultor, are finite and equal those of the exact observable wherever "
      "those exist: at any orientation, including the defaults (edge-on, no obliquity, zero phase), and "
      "for occultors of any size in front, behind, covering all or nothing, away from contacts and "
      "concentric discs. What is hidden or not overlapped has derivative zero. Forward and reverse mode agree.",
      "all maps of degree 0..4, limb darkening 0..2, orientations and geometries away from contacts",
      "Tests check that a few gradients are finite; a derivative can be wrong or nan in a masked branch "
      "while every value is right.",
      [ST + "light_curves.py", ST + "core/solution.py", ST + "core/rotation.py", ST + "doppler.py",
       ST + "surface.py", "utils.py"],
      [("masked branches", ST + "core/solution.py, " + ST + "light_curves.py"),
       ("rotation", ST + "core/rotation.py left_project")],
      ["jax.grad of surface_light_curve, surface_radial_velocity, Surface.intensity, ylm_spot"],
      "derivative monitor: five point differences of an independent quadrature",
      "x64. Gradients at inc exactly 0 or pi are known findings."),
    P("C26", "Orbits have the right derivatives with respect to their parameters",
      "The derivatives of positions, velocities and radial velocities of Keplerian orbits with respect to "
      "time and every orbital element are finite and equal those of the exact two-body orbit, for every "
      "parametrisation, including circular orbits, edge-on orbits, special angles and the exact times of transit and "
      "periastron; those of transit and TTV orbits equal those of their straight lines.",
      "all parametrisations, eccentricities 0..0.9, times within many periods",
      "Tests check no gradients of orbits; a derivative can be wrong or nan although values are right.",
      [K, "core/kepler.py", "orbits/transit.py", "orbits/ttv.py"],
      [("true anomaly and its derivative", "core/kepler.py"),
       ("conversion of elements", K + " OrbitalBody.__init__")],
      ["jax.grad / jax.jvp of positions, velocities, radial velocities"],
      "derivative monitor: differences of an independent orbit in extended precision", "x64."),
    P("C27", "Orbits, surfaces and maps are data that transformations pass around unchanged",
      "Stars, bodies, orbits, systems, maps, polynomials and surfaces are trees of numbers whose structure does not "
      "depend on the values: taken apart and put together, copied, passed to, closed over by or returned from "
      "compiled functions, made or observed in batches, indexed, stacked, scanned over, selected between and "
      "carried through loops, they have the observables of the object that was built, new values need no new trace, "
      "replacing a parameter of a surface gives the surface built with it, and derivatives with respect to the "
      "object follow the chain rule.",
      "all kinds of objects x transformations x parameter values, special ones (zeros) included",
      "Tests build and observe an object in the same scope; a value dependent structure or a constant folded "
      "wrongly shows only when the object crosses the boundary of a transformation.",
      ["object_stack.py", K, "orbits/transit.py", "orbits/ttv.py", ST + "surface.py", ST + "orbit.py", ST + "ylm.py",
       ST + "core/polynomials.py", ST + "light_curves.py"],
      [("module fields", K + " Central, Body, OrbitalBody, System"), ("map container", ST + "ylm.py Ylm"),
       ("surface fields", ST + "surface.py Surface")],
      ["the objects' constructors and observables under jax transformations"],
      "differential monitor: every way of passing the object against making and observing it in one function", "x64.",
      ("inputs", "programs", "configurations")),
    P("C28", "Single precision gives the double precision results, to single precision",
      "With x64 disabled, jax's default, every public observable and its derivatives are single precision "
      "numbers that are finite wherever the double precision ones are and differ from them by no more than a "
      "modest multiple of what rounding of the inputs and of the terms to single precision forces: nothing "
      "overflows, cancels or falls back on double precision on the way, at any ordinary scale of the parameters.",
      "all observables x parameter values, representable in single precision, away from contacts",
      "Tests compare a few values at loose tolerance and mostly run in one precision; overflow, a tolerance meant "
      "for double precision or a cancellation shows only in single precision and at particular parameters.",
      ["core/kepler.py", "core/limb_dark.py", K, "orbits/transit.py", "orbits/ttv.py", "units/registry.py",
       ST + "ylm.py", ST + "surface.py", ST + "core/solution.py", ST + "core/s2fft_rotation.py",
       ST + "light_curves.py", ST + "doppler.py", "utils.py"],
      [("spot profile", ST + "ylm.py spot_profile"), ("starter of the solver", "core/kepler.py starter"),
       ("guards of degenerate arguments", "utils.py zero_safe_sqrt; core/limb_dark.py kite_area")],
      ["the public observables with jax_enable_x64 off"],
      "differential monitor: single against double precision with measured sensitivities as the tolerance",
      "Tolerance 100 eps of the sensitivities and of the size of the output (10 times that for derivatives)."),
]

NOT_APPLICABLE = []
