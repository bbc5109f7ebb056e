#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the list lives here so that it is easy to edit)."""
import json, os
CAL="crates/tofas/src/calendar.rs"; COM="crates/tofas/src/common.rs"; DAT="crates/tofas/src/delta_at.rs"
TIM="crates/tofas/src/time.rs"; EAR="crates/tofas/src/earth.rs"; EPD="crates/tofas/src/epv00_data.rs"
ELL="crates/tofas/src/ellipsoid.rs"; FRA="crates/tofas/src/frames.rs"; FUN="crates/tofas/src/fundargs.rs"
LOC="crates/tofas/src/locator.rs"; SUN="crates/tofas_extras/src/sun_angle.rs"
JT="crates/tofas_extras/examples/julian_tool.rs"; ST="crates/tofas_extras/examples/sun_angle_tool.rs"
P=[]
def p(id,title,statement,over,text,why,files,mech,observe=None,state=None):
    assert len(title)<=80,(id,len(title))
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    a["observe_at"]=observe or []
    a["hook_needed"]=None
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},
              "why_tests_cant":why,"anchors":a})

p("C01","Exactly the real Gregorian dates are accepted, others named by error",
  "Constructing a calendar date succeeds exactly for the (year, month, day) triples that exist in the proleptic Gregorian calendar with year >= -4799, and the date carries those three numbers unchanged. Every other triple is refused, the error naming the first bad component in the order year, month, day.",
  ["inputs"],"all (year, month, day) triples of 32-bit integers",
  "The suite constructs four dates and never a rejected one; leap-century, month-length and lower-year rules quantify over all triples.",
  [CAL],[("GregorianDate::new",CAL),("MTAB / leap rule",CAL),("YEAR_MIN",CAL)],["Result of GregorianDate::new"])
p("C02","Calendar date to Julian date follows the proleptic Gregorian day count",
  "For every accepted date the two-part Julian date is (2400000.5, n) with n the exact integer number of days from 1858-11-17 to that date in the proleptic Gregorian calendar. Consecutive dates therefore differ by exactly one day, across month ends, leap days, century years and year signs, however far the year; attaching a time of day adds exactly that fraction.",
  ["inputs"],"all accepted dates, years -4799 up to the largest 32-bit year, and all times of day",
  "Two fixed dates and a random round trip that uses the inverse from the same source; a shared error, or one confined to certain years, is invisible.",
  [CAL],[("GregorianDate::to_julian",CAL),("GregorianDateHMS::to_julian",CAL)],["returned pair"])
p("C03","Julian date to calendar date is the exact inverse for every split",
  "For every Julian date from -32000 to 1e9, however it is split into two parts and in whichever order, the result is the proleptic Gregorian date of that instant, a real month and day, with a day fraction in [0,1); date and fraction together give back the instant to within the rounding of the parts supplied. Julian dates outside the range, or not a number, are refused.",
  ["inputs"],"all pairs of doubles: any total inside or outside the range, any split, either order, instants at and next to midnight and noon",
  "The test samples one split form (half-integer plus fraction) inside the first 6 millennia and compares only the round trip; other splits, large dates, midnight neighbours and rejections are not sampled.",
  [CAL],[("GregorianDate::from_julian",CAL),("DJ_MIN/DJ_MAX",CAL),("GregorianDateHMS::from_julian",CAL)],["returned date, fraction or error"])
p("C04","Time of day and fraction of day convert both ways without loss",
  "For every fraction f in [0,1) the time of day has hour 0-23, minute 0-59 and seconds in [0,60), and denotes f*86400 seconds to within rounding; converting it back returns f to within rounding, and later fractions never give earlier times. Converting any hour, minute, second to a fraction gives (3600h+60m+s)/86400; fractions below 0, above 1, or not a number are refused.",
  ["inputs"],"all doubles as fractions (including both sides of every second, minute and hour) and all (hour, minute, second)",
  "1000 uniform fractions, which practically never land next to a minute or hour boundary, nor outside [0,1].",
  [CAL],[("HMS::from_fraction_of_day",CAL),("HMS::to_fraction_of_day",CAL)],["returned HMS / fraction"])
p("C05","Printed dates, times and positions read back to the same value",
  "The text form of a date is YYYY-MM-DD (at least four characters for the year, sign included), of a time HH:MM:SS.ffffff, of a date with time both separated by one space, and of a position signed latitude, longitude (degrees, 6 decimals) and height (metres, 2 decimals), zero-padded and comma separated. Parsing the text gives back each printed value to within half a unit of its last printed digit, in the right field and with the right sign.",
  ["inputs"],"all dates, all times of day, all positions (both hemispheres, small and large heights)",
  "One position is printed in the suite; padding, signs, small values and rounding carry are not.",
  [CAL,ELL],[("Display for GregorianDate/HMS/GregorianDateHMS",CAL),("Display for Geodetic/Geodetic360",ELL)],["formatted string"])
p("C06","TAI-UTC is the published offset in force on the date",
  "For every date from 1960-01-01 and day fraction in [0,1] the returned TAI-UTC equals the published value in force: the integer leap-second count from 1972 on, each new value applying from the first day of its month, and before 1972 the published offset plus its drift rate times the days since its reference date. Earlier dates have no value, and day fractions outside [0,1] or not a number are refused.",
  ["inputs"],"all accepted dates and all doubles as day fraction",
  "A single date is tested, far from any change of offset.",
  [DAT],[("DAT_DATA",DAT),("DeltaAt::delta_at",DAT)],["returned Option/Result"],
  [("DAT_DATA","table of dates, offsets and drifts","crates/tofas/src/delta_at.rs")])
p("C07","Time-scale conversions add exactly the stated offset and keep precision",
  "Converting between UTC, TAI, TT, TDB and UT1 changes the instant by exactly the defined offset with the right sign (TAI-UTC, TT-TAI = 32.184 s, TDB-TT, TT-UT1), whatever the split of the date, either part first. The offset goes to the smaller part and the larger is kept bit for bit, so no precision is lost; conversions and their reverses cancel, and totals equal the sum of the parts.",
  ["inputs"],"all two-part dates (any split and order, equal parts included) and all offsets",
  "Tests use dtr = 0 and dt = 0 and large-part-first dates only, so neither the amounts, signs nor the reversed split are exercised.",
  [TIM],[("TAI::from_utc_delta_at, From<TAI> for TT, TDB::from_tt, UT1::from_tt, TT::from_ut1, total",TIM)],["both parts of the result"])
p("C08","Angle normalisation returns the equivalent angle in [0, 2pi)",
  "For every finite angle the normalised angle is >= 0 and strictly below 2pi and differs from the input by a whole number of turns, to within the rounding of the input. Angles already in the range are returned unchanged.",
  ["inputs"],"all finite doubles, including tiny negatives, exact multiples of 2pi and their neighbours, and large values",
  "Not tested directly; only reached through positive Earth rotation angles.",
  [COM],[("anp",COM)],["returned angle"])
p("C09","Vector operations obey Euclidean geometry for all vectors",
  "Sum, difference, negation, scaling, dot product and norm of 3-vectors equal their component-wise definitions; normalising a non-zero vector (its squared length neither overflowing nor underflowing) gives the parallel unit vector. The angle between any two such vectors is a number in [0, pi], symmetric, unchanged by positive scaling, 0 for parallel and pi for opposite vectors, and equals the geometric angle to within the rounding of the cosine.",
  ["inputs"],"all finite vectors of magnitudes 1e-100 to 1e100, including parallel, opposite, orthogonal and nearly aligned pairs",
  "No test checks vector operations.",
  [COM],[("impl Vector for Vec3",COM)],["returned vector or number"])
p("C10","Matrix algebra and elementary rotations obey their laws",
  "Composition is the matrix product, application acts with the first index summed (so applying a composition equals applying its left factor and then its right factor), and transposition swaps indices. An elementary rotation about each of the three axes is the right-handed frame rotation: orthogonal, determinant +1, leaves its axis alone, adds angles under composition, and its transpose is the rotation by the opposite angle.",
  ["inputs"],"all matrices and vectors with finite entries, all axes, all angles",
  "The only rotation test uses axis 0 and verifies that a product with its inverse is the identity, which also holds for wrong rotations.",
  [COM],[("impl Matrix for Mat3",COM)],["returned matrix or vector"])
p("C11","Earth rotation angle follows the IAU 2000 formula for any date split",
  "For any UT1 date the Earth rotation angle lies in [0, 2pi) and equals 2pi(0.7790572732640 + 1.00273781191135448 (JD - 2451545)) modulo one turn, to within rounding. The result does not depend on how the date is split nor on the order of the parts beyond the rounding of those parts, so with the fraction of the day held separately it is good to a few 1e-13 radian per century from 2000.",
  ["inputs"],"UT1 dates over several millennia either side of 2000, every split form and order",
  "1000 vectors, all after 2000, all split as (2451545, days).",
  [EAR],[("rotation_angle",EAR),("anp",COM)],["returned angle"])
p("C12","Polar-motion matrix is the product of the three defined rotations",
  "For any pole coordinates and TIO locator the polar-motion matrix equals the frame rotations by s' about z, then -xp about y, then -yp about x. It is a proper rotation for every input and the identity for zero arguments.",
  ["inputs"],"all finite (xp, yp, s'), arcsecond-sized and large, both signs",
  "Vectors use arguments in (0,1) only: no sign, no arcsecond-sized values.",
  [EAR,COM],[("polar_motion_matrix",EAR)],["returned matrix"])
p("C13","Fundamental arguments follow the IERS 2003 polynomials",
  "For any time in Julian centuries from J2000, before or after, the eight lunisolar and planetary arguments equal the IERS Conventions (2003) polynomials modulo one turn, to within the rounding of the unreduced argument.",
  ["inputs"],"all t in [-100, 100] centuries, including 0 and negative",
  "Only reached through the CIO locator for t in [0,1], where high-order terms and negative times hardly matter.",
  [FUN],[("l03, lp03, f03, d03, om03, ve03, e03, pa03",FUN)],["returned angle modulo 2pi"])
p("C14","Nutation angles equal the IAU 2000B series",
  "For any TT date, before or after 2000 and however split, the nutation in longitude and obliquity equals the 77-term IAU 2000B luni-solar series plus the fixed planetary offsets, to within rounding.",
  ["inputs"],"TT dates over +-20 centuries around J2000, every split form",
  "1000 vectors over 2000-2100 with one split form.",
  [FRA],[("nutation",FRA),("NALS/CLS",FRA)],["returned (dpsi, deps)"],
  [("NALS, CLS","multipliers and coefficients of the series",FRA)])
p("C15","Frame bias, precession and obliquity equal the IAU 2000 models",
  "For any TT date, before or after 2000 and however split, mean obliquity, precession-rate corrections, frame-bias angles and the bias, precession and bias-precession matrices equal the IAU 1980/2000 expressions to within rounding. All three matrices are proper rotations, bias-precession being the precession matrix times the bias matrix.",
  ["inputs"],"TT dates over +-20 centuries around J2000, every split form",
  "Vectors for the matrices span one day, for the rates one century after 2000; obliquity is not tested alone.",
  [FRA],[("mean_obliquity, precession_rate, frame_bias, bias_and_precession",FRA)],["returned angles and matrices"])
p("C16","Nutation matrix and bias-precession-nutation matrix are exact products",
  "The nutation matrix for given obliquity and nutation angles is the product of the three defined rotations and a proper rotation for any angles. For any TT date the combined matrix equals the nutation matrix of that date (computed with the corrected mean obliquity and either the model's or caller-supplied nutation) times the bias-precession matrix, and the nutation in longitude reported with it is the one used.",
  ["inputs"],"all finite angles; TT dates over +-20 centuries, every split form; any supplied nutation",
  "Vectors cover 2000-2100 and the built-in nutation only; caller-supplied nutation is not exercised separately.",
  [FRA],[("nutation_matrix, PrecessionNutation, precession_nutation",FRA)],["returned matrix, Debug/pub fields"])
p("C17","CIO locator s equals the IAU 2000 series for any date and pole",
  "For any TT date, however split, and any CIP coordinates X, Y the CIO locator equals the IAU 2000 series for s + XY/2 minus XY/2, to within rounding.",
  ["inputs"],"TT dates over +-20 centuries, every split form; X, Y of any sign and of realistic and unit size",
  "1000 vectors for 2000-2100 with X, Y uniform in (0,1), which drown the series in the rounding of XY/2.",
  [LOC,FUN],[("cio",LOC),("KS*/SS* tables",LOC)],["returned angle"])
p("C18","Celestial-to-intermediate matrix is the CIO-based rotation for X, Y, s",
  "For any X, Y with X^2+Y^2 < 1 and any s the celestial-to-intermediate matrix is a proper rotation whose third row is (X, Y, sqrt(1-X^2-Y^2)) and equals the defined three-rotation product; the pole direction X = Y = 0 gives the plain rotation by -s. The variants taking a date, a bias-precession-nutation matrix or X, Y derive the missing quantities from the date with the models above.",
  ["inputs"],"all (X, Y) in the unit disc including the centre and all four quadrants, any s; TT dates over +-20 centuries, every split form",
  "Vectors exercise only the realistic pole path for 2000-2100; degenerate and large poles are not tested.",
  [FRA],[("celestial_to_intermediate*, xy_from_bpn",FRA),("cio",LOC)],["returned matrix"])
p("C19","Celestial-to-terrestrial matrix combines pole, Earth rotation and polar motion",
  "For any TT and UT1 dates, however split, and any pole coordinates, the celestial-to-terrestrial matrix equals polar motion times the Earth rotation times the celestial-to-intermediate matrix of the IAU 2000B models, to within rounding, and is a proper rotation. Assembling it from caller-supplied parts gives exactly that product.",
  ["inputs"],"TT and UT1 dates over +-20 centuries, every split form, independent of each other; pole coordinates of arcseconds to a radian, both signs; any matrices as parts",
  "All vectors have xp = yp = 0, UT1 = TT, 2000-2100: polar motion and UT1 are never distinguished.",
  [FRA,EAR,LOC],[("celestial_to_terrestrial, celestial_to_terrestrial_from_cio_components",FRA)],["returned matrix"])
p("C20","Earth position and velocity equal the EPV00 series",
  "For any TDB date, however split, the heliocentric and barycentric position (AU) and velocity (AU/day) of the Earth equal the SOFA epv00 series, rotated to the ICRF, to within rounding. Outside 1900-2100 the result is still computed and carries an out-of-range warning; inside it carries none.",
  ["inputs"],"TDB dates over 1900-2100 and beyond (+-10 centuries), every split form",
  "No test compares the Earth's position or velocity with anything; only the absence of a warning for one day in 2000 is asserted.",
  [EAR,EPD],[("From<TDB> for EarthPosVel",EAR),("E0..S2 tables",EPD)],["p, v, warning"],
  [("E0,E1,E2,S0,S1,S2","series coefficients",EPD)])
p("C21","Earth ephemeris is physically consistent: velocity is the rate of position",
  "For any date in 1900-2100 the reported velocities are the time derivatives of the reported positions, the heliocentric distance stays between 0.975 and 1.025 AU, the Sun stays within 0.012 AU of the barycentre, and the Earth-Sun direction agrees with the standard almanac solar formula. Positions vary continuously with the date.",
  ["inputs"],"TDB dates over 1900-2100, every split form",
  "Nothing about the ephemeris is asserted by the suite.",
  [EAR,EPD],[("From<TDB> for EarthPosVel",EAR)],["p, v at neighbouring dates"])
p("C22","Geodetic to geocentric gives the point at that height above the ellipsoid",
  "For any valid ellipsoid and any longitude, latitude and height, the geocentric coordinates are those of the point at the given height along the outward normal of the ellipsoid surface point with that latitude and longitude, to within rounding. The zenith vector of a position is that unit outward normal.",
  ["inputs"],"ellipsoids with 0 <= f < 1 and positive radius; all longitudes, latitudes in [-90, 90] degrees including poles and equator, heights from deep to far space",
  "Only the round trip of random southern points between 0 and 10 km on WGS84 is tested, so errors shared by both directions cancel.",
  [ELL],[("EllipsoidConverter::geodetic_to_geocentric",ELL),("Geodetic::zenith",ELL)],["returned vector"])
p("C23","Geocentric to geodetic inverts the forward conversion everywhere",
  "For any Earth-like or planetary ellipsoid and any point not deep inside it, the geodetic longitude lies in [-pi, pi], the latitude in [-pi/2, pi/2], and converting back gives the same point (to about 10 micrometres near the Earth, 1e-9 of the distance far out; the error grows as the fourth power of larger flattenings). This holds in both hemispheres, all longitude quadrants, at the poles, on the polar axis, where the longitude is 0, and in the equatorial plane.",
  ["inputs"],"points from 100 km below the surface to interplanetary distances, in all octants, on and next to the axis and the equator; ellipsoids from the sphere to f = 0.1",
  "Random southern points between 0 and 10 km on WGS84 only; northern hemisphere, axis, equator, altitude and other ellipsoids are not sampled.",
  [ELL],[("EllipsoidConverter::geocentric_to_geodetic",ELL)],["returned Geodetic"])
p("C24","Only valid ellipsoids are accepted and an accepted one always works",
  "A converter is built exactly when the flattening is in [0,1) (and not so close to 1 that the minor axis vanishes numerically) and the radius is positive and finite; otherwise the error names flattening or radius, flattening first. A built converter reports the ellipsoid it was given, and every ordinary position converts through it, both ways, to finite coordinates.",
  ["inputs"],"all pairs of doubles as radius and flattening including 0, negatives, infinities and NaN",
  "Only WGS84 is constructed.",
  [ELL],[("EllipsoidConverter::new, ellipsoid",ELL)],["Result of new; outputs of both conversions"])
p("C25","Degree and radian positions denote the same point",
  "Converting a position from radians to degrees keeps its height and its latitude, poles included, and reduces its longitude to [-180,180) by whole turns; converting degrees to radians multiplies both angles by pi/180. A round trip therefore denotes the same point of the Earth to within rounding, for positions passed by value or by reference.",
  ["inputs"],"all latitudes in [-90, 90] degrees including the poles and their neighbours, any longitude including several turns and the antimeridian, any height",
  "One mid-latitude position is formatted; poles, antimeridian and longitudes outside one turn are not tested.",
  [ELL],[("From<Geodetic> for Geodetic360 and back",ELL)],["returned coordinates"])
p("C26","Sun zenith angle is that of the model chain at the place and time",
  "For any date from 1900 to 2100, time of day (also within a leap second), place and offset in seconds, the computed Julian dates, TAI-UTC, TAI, TT, UT1, Earth rotation angle, Earth position, terrestrial Sun vector, site position and Sun zenith angle all equal those obtained by chaining the published models (TAI-UTC taken as 0 before 1960, fixed pole (0.0349282\", 0.4833163\") and UT1-UTC = -0.072073685 s, TDB = TT). The zenith angle is a number in [0, pi] and agrees with the standard almanac solar position to a few hundredths of a degree.",
  ["inputs"],"dates 1900-2100, all times of day, all places including poles, all offsets of up to a few days",
  "The Sun angle crate has no tests at all.",
  [SUN,EAR,FRA,TIM,DAT,ELL],[("SunAngleCalculator::new / compute",SUN)],["every field of SunAngleResult"])
p("C27","A Sun-angle calculator can be reused: results depend only on the offset",
  "Any sequence of computations on one calculator gives, for each offset, bit for bit the result a fresh calculator gives, whatever was computed before. An offset of d seconds gives the same Sun angle as setting the clock d seconds later (no leap second in between), and moving the site west by the Earth's rotation in d seconds nearly undoes it.",
  ["histories","inputs"],"all sequences of offsets on one calculator; all parameter sets; all pairs of equivalent clock/offset settings",
  "The Sun angle crate has no tests, and tests do not sequence calls.",
  [SUN],[("SunAngleCalculator::compute",SUN)],["SunAngleResult of each call"],
  [("SunAngleCalculator fields","per-site, per-day constants",SUN)])
p("C28","Every computation is a pure function of its arguments",
  "Calling any public conversion or model function again with the same arguments, after any other calls, in any order, or at the same time from several threads, returns bit-identical results.",
  ["histories","schedules"],"all histories of calls of the public functions with repeated and nearly repeated arguments, and their re-orderings, including concurrent ones",
  "Tests call each function once per argument in one order.",
  [EAR,FRA,LOC,FUN,CAL,ELL,TIM,DAT,COM],[("no global state anywhere; converters and calculators immutable after construction","crates/tofas/src")],["results compared bit for bit"])
p("C29","No panic and no NaN on inputs the interface accepts",
  "No public function panics on any finite input allowed by its validation (dates accepted by the constructor, Julian dates accepted by the converter, ordinary points on any Earth-like or planetary ellipsoid, any two-part date within a million years, any angles), and all numbers returned for them are finite. Calendar dates, Julian dates, fractions of a day and ellipsoid parameters that are invalid, NaN and infinities included, are answered with an error and never with a value.",
  ["inputs"],"all inputs accepted by the validating constructors and all numeric inputs of the rest, extreme values included",
  "Tests use ordinary mid-range values only.",
  [CAL,DAT,ELL,COM,EAR,FRA,LOC,TIM],[("range checks returning Err",CAL),("EllipsoidConverter::new",ELL),("delta_at",DAT)],["panic or non-finite result"])
p("C30","Command-line tools print what the library computes, or fail cleanly",
  "For any arguments the Julian-date tool prints the Julian date of the given calendar date and time (noon when no time is given), or the calendar date and time of the given Julian date, so that feeding one output to the other returns the start to within printed precision; the Sun-angle tool prints for each requested offset the quantities of the library, options left out standing for the library's default parameters. Invalid dates and unparsable or missing arguments give a non-zero exit status and no result.",
  ["inputs","configurations"],"all argument lists: valid and invalid dates, times, Julian dates in one or two parts, positions, scan ranges",
  "The tools have no tests.",
  [JT,ST,SUN,CAL],[("main of julian_tool",JT),("main of sun_angle_tool",ST),("Display for SunAngleResultBundle",SUN)],["stdout and exit status of the tools"])
with open(os.path.join(os.path.dirname(__file__),"..","properties.jsonl"),"w") as f:
    for x in P: f.write(json.dumps(x)+"\n")
print(len(P))
