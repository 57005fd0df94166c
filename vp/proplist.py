from .propbase import prop, ENGINE, TRUST

prop("C01", "Time-system corrections form a consistent offset algebra",
     "The correction between two supported time systems is zero for identical systems, changes sign when source and target are exchanged, and going through any third system gives the same correction as going directly. Each atomic scale has its published constant offset from TAI, UTC and GLONASS differ from TAI by the leap-second count of the caller's date, and an unknown system is rejected with an exception rather than treated as some default.",
     ["inputs"], "every ordered pair and triple of time systems, every calendar date",
     "TimeSystem_T samples a handful of pairs at a few dates; consistency is a statement about all pairs and triples at all dates.",
     ["core/lib/RefTime/TimeSystem.cpp", "core/lib/RefTime/TimeSystem.hpp"],
     [("time-system correction chain through TAI/GPS", "core/lib/RefTime/TimeSystem.cpp getTimeSystemCorrection")],
     ENGINE + "algebra of the resulting affine terms over all enumerator pairs and triples",
     "Decides identity, antisymmetry, cocycle, published constants and date propagation for every pair/triple symbolically in the date. Leap seconds and calendar-to-JD are opaque symbols here." + TRUST)

prop("C02", "Leap-second lookup matches the published UTC history for every date",
     "For every year and month from 1972 on the leap-second count equals the published TAI-UTC value in force, independent of the day. Before 1960 or for an invalid month it is zero, and from 1960 through 1971 it follows the published linear drift segments.",
     ["inputs"], "all years and months (integers), all days",
     "The unit test samples some dates; an off-by-one in one table row or comparison shows only in that row's months.",
     ["core/lib/RefTime/TimeSystem.cpp"],
     [("leap-second table and its search", "core/lib/RefTime/TimeSystem.cpp getLeapSeconds")],
     ENGINE + "gates resolved at every ordering of (year, month) against the constants they compare with; compared with the IERS table",
     "Exhaustive over the orderings that the lookup can distinguish; the JD conversion used for pre-1972 days is opaque." + TRUST)

prop("C03", "Times of different time systems are never compared or differenced silently",
     "For every time representation, ordering or subtracting two values whose time systems differ (neither being the wildcard) raises an invalid-request exception instead of producing an answer, and equality never reports such values as equal. When the systems match or one is the wildcard the operators give an answer.",
     ["inputs"], "every time class, every comparison or difference operator, every pair of time systems",
     "Tests try one or two system pairs per class; 17 classes times 7 operators times 100+ pairs are not sampled.",
     ["core/lib/TimeHandling", "core/lib/RefTime/TimeSystem.hpp"],
     [("time-system check in each operator", "core/lib/TimeHandling/*.cpp operator< / operator== / operator-")],
     ENGINE + "normal and exceptional exits of each operator for every pair of enumerators",
     "Every class derived from the common time-tag base, discovered from the class hierarchy; other fields stay symbolic." + TRUST)

prop("C04", "Orderings are strict weak orderings and relational operators agree",
     "Every less-than operator and comparison functor the library uses for sorting or keying (satellite, signal and file identifiers, times, time ranges, navigation messages and data records) is irreflexive, asymmetric and transitive with transitive incomparability, or is an equivalence relation where it is meant as equality. A class's >, <=, >=, == and != give exactly what its less-than determines (wildcard fields aside, and values equal within the numeric tolerance counting as equal; an equality that looks at more than the ordering never holds between ordered objects).",
     ["inputs"], "all pairs and triples of objects of each ordered class",
     "A map or sort goes wrong only for particular triples; tests compare a few pairs, and the derived operators rarely at all.",
     ["core/lib/GNSSCore", "core/lib/GNSSEph", "core/lib/TimeHandling", "core/lib/FileHandling", "core/lib/NavFilter", "ext/lib/Geomatics"],
     [("relational operators and sort functors", "operator<, operator() in core/lib and ext/lib, discovered from the parsed program")],
     ENGINE + "ordering laws over the abstract domain of key orderings",
     "Every relational operator between two objects of one library class is discovered. Keys are assumed independent; member objects' own orderings are taken as total orders (they are checked separately); container members are instantiated with three elements; comparators looping over run-time lists stay unresolved and are listed in the evidence." + TRUST)

prop("C05", "Time format identifiers print, error-print and read back consistently",
     "For every time class, the identifier characters its printf replaces, its printError replaces and its getPrintChars declares are the same, each printed with a conversion that fits the value passed (error text as text), and the value printed is the documented quantity of the identifier (e.g. the epoch, full and modulus week of each constellation's rollover width). Setting an object through setFromInfo from the text printed for one identifier gives an object that prints the same value for that identifier, and printTime offers the format to every time class.",
     ["inputs"], "every time class, every identifier, every printed value",
     "Each class repeats the table three times by hand; tests print a few identifiers of a few classes, and error formats hardly at all (two such defects were found and fixed).",
     ["core/lib/TimeHandling"],
     [("per-class format tables", "core/lib/TimeHandling printf / printError / getPrintChars / setFromInfo")],
     ENGINE + "sets of identifiers compared, value terms compared in a bit-slice normal form, read-back composed symbolically",
     "Text conversion itself (sprintf/strtod digits) is trusted: a printed number is assumed to parse to itself. getInfo's splitting of the text and scanTime's dispatch are not covered." + TRUST)

prop("C06", "Identifier names and satellite identifiers survive printing and parsing",
     "Every enumerator of the library's naming enumerations (time systems, reference frames, satellite systems, carrier bands, tracking codes, observation types, navigation message types, IERS conventions, satellite metadata states and clock types) prints a name no other enumerator of that enumeration prints, that name parses back to the same enumerator, and text naming none parses to the unknown value. A RINEX or SP3 satellite identifier prints as its system's letter followed by a two-digit number, parses back to the same system and number for every satellite of every system the format has, refuses letters that name no system, and a generic satellite identifier converted to it keeps its system and number when the format has that system and becomes unknown otherwise.",
     ["inputs"], "every enumerator; every system, satellite number and leading character",
     "Tests print a few names; tables of 200 names kept in parallel arrays go wrong one row at a time, and the per-system number offsets at the edges of a constellation's numbers.",
     ["core/lib/RefTime", "core/lib/GNSSCore", "core/lib/GNSSEph"],
     [("enumeration name tables", "asString / as<Enum> in core/lib and ext/lib"), ("satellite identifier text", "RinexSatID / SP3SatID toString, fromString, validate")],
     ENGINE + "tables enumerated over all enumerators; printed text kept symbolic in the number and handed to the parser",
     "Parsers are evaluated on the exact text printed, the satellite number symbolic over the constellation's range; the blank-number and bare-number forms are evaluated at single texts." + TRUST)

prop("C07", "RINEX navigation records survive being written and read back",
     "For RINEX 2 and 3 navigation data of every supported constellation, each field of the broadcast orbit lines carries, in the columns the format assigns, the quantity the format assigns to it, and reading the text of a written record restores every one of these quantities, the epoch with its time system, the satellite, and the week (also when the message was sent in the week before its reference time).",
     ["inputs"], "every constellation and format version, all values of all orbit fields representable in their columns",
     "Round-trip tests use recorded files; a swapped, shifted or dropped field in one constellation's branch appears only for that constellation and version.",
     ["core/lib/FileHandling/RINEX3/Rinex3NavData.cpp", "core/lib/FileHandling/RINEX/RinexNavData.cpp"],
     [("broadcast orbit writer and reader", "Rinex3NavData::reallyPutRecord / reallyGetRecord, RinexNavData likewise")],
     ENGINE + "a text-layout domain (columns, widths, conversions) for what the writer produces, which is then the reader's abstract input",
     "Values that do not fit their columns or need more digits than printed are outside; number text is trusted to parse to the number printed. Week handling is decided at two reference/transmission week pairs per constellation." + TRUST)

prop("C08", "SP3 files survive being written and read back",
     "For SP3 versions a to d, epoch, position, velocity and correlation records carry each quantity in the columns the format assigns (position or velocity and clock, standard deviations, correlations, event and prediction flags), and reading the written text restores every one of them, the satellite, and the epoch with its fraction of a second. A written header is read back with the same version, start time, interval, epoch count, identification fields, satellite list with accuracies, time system, base values and comments, and reading a file returns its data records in order, each stamped with the epoch line before it.",
     ["inputs", "histories"], "every record type and version, all representable values; satellite lists up to the format's size; record sequences mixing all kinds",
     "Round-trip tests compare recorded files with whole-second epochs and one satellite list; a defect in the fraction of a second (two were found and fixed), a flag column or the last line of the list is not met.",
     ["core/lib/FileHandling/SP3/SP3Data.cpp", "core/lib/FileHandling/SP3/SP3Header.cpp"],
     [("SP3 record writer and reader", "SP3Data::reallyPutRecord / reallyGetRecord"), ("SP3 header writer and reader", "SP3Header::reallyPutRecord / reallyGetRecord")],
     ENGINE + "a text-layout domain for what the writer produces, which is then the reader's abstract input",
     "Numeric values symbolic; satellite lists, comment counts and record sequences are enumerated cases. Values that do not fit their columns are outside." + TRUST)

prop("C09", "SEM and Yuma almanacs survive writing and reading, in the right week epoch",
     "Each line of a written SEM or Yuma almanac record carries the quantity, unit, notation and digits the format gives it, and reading it back restores every one of them; the total inclination and the offset from 54 degrees are derived from each other in radians, and a SEM record takes its week and reference time from the file's header, which itself reads back as written. With a week of interest set, the week read keeps its value modulo 1024 and lies within half an epoch of the week of interest; without one it is kept as it stands.",
     ["inputs"], "all values of all almanac quantities; file weeks and weeks of interest across three epochs",
     "The tests read recorded almanacs of one epoch; the epoch shift was wrong for weeks more than half an epoch away and the SEM inclination was added in the wrong unit (both found and fixed).",
     ["ext/lib/FileHandling/SEM", "ext/lib/FileHandling/Yuma"],
     [("almanac record codecs", "SEMData, SEMHeader, YumaData reallyPutRecord / reallyGetRecord"), ("week epoch selection", "SEMHeader / YumaData nearFullWeek")],
     ENGINE + "a text-layout domain for what the writer produces, which is then the reader's abstract input",
     "Quantities symbolic; header contents and week pairs are enumerated cases (23 weeks of interest by 16 file weeks)." + TRUST)

prop("C10", "RINEX observation, met and clock records survive writing and reading",
     "Each line of a written RINEX observation record (RINEX 2 and 3), meteorological record or clock record (both clock classes) carries every quantity in the columns the format gives it - epoch, event flag, satellite list with its continuation lines, receiver clock offset, observations five to a line in RINEX 2, loss-of-lock and strength digits, clock values two on the first line and four on the second - with the digits it asks for; a record has the same text whatever was written before it on the stream. Reading the text back takes exactly those lines and restores the epoch, the flag, the counts, every satellite and every value; records of event flags 2 to 5 keep their flag with and without an epoch.",
     ["inputs"], "all observation and clock values and epochs (symbolic); 1 to 37 satellites of four systems, 1 to 11 observation types, 1 to 29 meteorological types, 1 to 6 clock values",
     "The tests copy recorded files; SBAS and QZSS clock records, first clock records of a file, and event records without a time were written unreadably (all found and fixed).",
     ["core/lib/FileHandling/RINEX", "core/lib/FileHandling/RINEX3"],
     [("observation record codecs", "RinexObsData / Rinex3ObsData reallyPutRecord / reallyGetRecord, RinexDatum"), ("meteorological record codec", "RinexMetData"),
      ("clock record codecs", "RinexClockData, Rinex3ClockData")],
     ENGINE + "a text-layout domain for what the writer produces, which is then the reader's abstract input",
     "Values symbolic; counts, systems, event flags and flag digits are enumerated cases. Values that do not fit their columns, and auxiliary header lines after an event record, are outside." + TRUST)
prop("C11", "Converting navigation records and ephemerides keeps every parameter and time",
     "Converting Rinex3NavData to and from GPSEphemeris, GalEphemeris, BDSEphemeris, QZSEphemeris, GloEphemeris and EngEphemeris, RinexNavData to and from EngEphemeris and to GPSEphemeris and Rinex3NavData, and SEMData and YumaData to AlmOrbit and OrbAlmGen carries over every broadcast parameter (orbit, clock, harmonic corrections, group delays, health, issue of data, accuracy, satellite number and system). The epoch Toc, the reference time Toe, the transmission (HOW) time and the week number of the result name the same instants, in the time system of the satellite's constellation, also when they lie in different weeks. The fit interval or validity period of the result follows from those instants and the fit hours. A record of another system gives an unloaded ephemeris.",
     ["inputs"], "all parameter values (symbolic); seven placements of the three times around a week boundary, four fit intervals, every Galileo source and health combination, every pair of system and ephemeris class",
     "Tests convert a few mid-week records; most defects sit at the week boundary, in one constellation or in one rarely read parameter (fifteen such were found and fixed here).",
     ["core/lib/FileHandling/RINEX3/Rinex3NavData.cpp", "core/lib/FileHandling/RINEX/RinexNavData.cpp", "core/lib/GNSSEph", "ext/lib/FileHandling/SEM/SEMData.cpp", "ext/lib/FileHandling/Yuma/YumaData.cpp"],
     [("record to ephemeris", "Rinex3NavData::operator *Ephemeris, castTo, RinexNavData::operator *Ephemeris"), ("ephemeris to record", "Rinex3NavData / RinexNavData constructors, loadFrom"),
      ("validity", "GPSEphemeris::adjustValidity and its siblings")],
     ENGINE + "both objects' members compared value number by value number, times as exact instants",
     "Values symbolic, times enumerated around one week boundary. Numerical evaluation of the converted orbit is outside." + TRUST)

prop("C12", "GPS legacy navigation subframes are decoded as IS-GPS-200 lays them out",
     "EngNav::subframeConvert gives every quantity of GPS subframes 1-3 and of the almanac, health, configuration, ionosphere/UTC and text pages of subframes 4 and 5 exactly from the bits, sign, scale and units IS-GPS-200 assigns, for all bit contents; the layout follows from the subframe and SV/page identifiers, and identifiers without a layout (subframe 0, 6, 7; SV 33-50) are refused. Week numbers cut to 8 or 10 bits become the full week with those low bits nearest the week given. computeParity, fixParity and checkParity implement the parity equations of table 20-XIV (BinUtils::countBits counts set bits), for words known upright and words as received; fixParity keeps the data bits and zeroes the last two bits of words 2 and 10. sv2page, sfpage2svid and zcount2page follow the broadcast schedule. getNMCTValidity gives Toe, transmission and NMCT times in the right week. The fit interval of each IODC and fit flag is that of table 20-XII. After addSubframe, addSubframeNoParity or addIncompleteSF1Thru3 have supplied subframes 1-3, in any order, the EngEphemeris getters return those quantities, with Toc and Toe in the week nearest the HOW and a fit interval centred on Toe, and with a subframe missing nothing is loaded; after EngAlmanac::addSubframe, its getters return the quantities of the page for the satellite it names.",
     ["inputs"], "all 300-bit contents (each bit symbolic), all subframe and SV/page identifiers, six placements of HOW, Toc and Toe around a week boundary, all IODC and fit flags, 24 full weeks by every 8- and 10-bit week",
     "Tests decode a few recorded subframes: a misplaced bit, sign or scale in a rarely sent page, or a wrong branch at a week rollover, does not show; an unused SV identifier read outside the pattern table, and parity of inverted words was left wrong (both found and fixed).",
     ["core/lib/GNSSEph", "core/lib/Utilities/BinUtils.hpp"],
     [("subframe decoding and parity", "EngNav"), ("collecting subframes", "EngEphemeris::addSubframe*, unifiedConvert; EngAlmanac::addSubframe"), ("bit counting", "BinUtils::countBits")],
     ENGINE + "a bit-level domain: every output as a weighted sum of message bits, parity as linear forms over GF(2), packed counters as disjoint bit fields",
     "Identifiers, times and weeks are enumerated, data bits symbolic. Values are compared to 12 digits (rounding of the scaling is outside)." + TRUST)

prop("C13", "Navigation message bits are packed and unpacked without loss",
     "PackedNavBits appends exactly the bits asked for, most significant first, after the bits already there, and refuses a value that does not fit its bits and bits beyond those stored. Unpacking takes exactly the bits named, in order (fields split in parts included), with the sign (two's complement or sign-magnitude), scale and units asked for, and gives packed values back. Strings, inserted, copied, inverted, appended and trimmed bits keep to the positions named; a copy holds and compares equal to the original, matchBits and operator< look at the bits stored only, and the hexadecimal text of the bits is read back as the same bits. No bit outside the storage is used, however many bits are added to whatever object.",
     ["inputs"], "all bit contents and values (symbolic), every field size from 1 to 53 bits, start positions around the word and storage boundaries, split fields of two and three parts, objects with 900 bits or more, copies and trimmed objects",
     "Tests pack a few fields of one message: a wrong sign extension over a split field, a boundary at 32 bits or storage overrun with the 901st bit or in a copy does not show (the last three were found and fixed).",
     ["core/lib/GNSSEph/PackedNavBits.cpp", "core/lib/GNSSEph/PackedNavBits.hpp"],
     [("packing and unpacking", "PackedNavBits::add*, as*, insert*, copyBits, invert, operator<, matchBits, rawBitInput")],
     ENGINE + "a bit-level domain: every stored bit and every unpacked value as a function of symbolic bits, with each element access compared with the length of the sequence",
     "Sizes, positions and numbers of bits are enumerated, contents symbolic. Rounding of the scaling is compared to 12 digits." + TRUST)

prop("C14", "No exception leaves a function declared not to throw, or a destructor",
     "A function the library declares throw() or noexcept, and every destructor, returns normally whatever its arguments and the state of its object (memory exhaustion and errors the caller's own stream or functor raises aside): none of the exceptions the library throws, directly or in any function it calls, nor those of the standard library's checked accesses, number conversions and library streams, can leave it, since that ends the user's program. In particular computeXvt() and getSVHealth() of every ephemeris store report an unusable satellite or time by the health they return.",
     ["inputs"], "all paths through the 1000 functions and destructors declared not to throw and everything they call (virtual calls to every overrider)",
     "Tests call these functions with good data; the exception needs a mismatched time system, an empty or unloaded object, a full disk - and then the program aborts. Some fifty functions declared throw() did let exceptions out (all fixed here).",
     ["core/lib", "ext/lib"],
     [("functions declared not to throw", "every throw()/noexcept function and destructor of core/lib and ext/lib")],
     "exception-effect analysis over the whole-program call graph (handlers subtract, virtual calls take every overrider), refined by abstract interpretation of each path on which an exception seems to leave",
     "Indexing with operator[], memory exhaustion, dereferenced null pointers and exceptions from streams passed in are outside. Fifteen throws are excused in the rule with the reason (invariants such as 'the index runs down from size-1')." + TRUST)
prop("C15", "Broadcast orbits and clocks are computed as the interface documents say",
     "For every broadcast orbit and every time, svXvt() and its kin (svRelativity, svClockBias, svClockBiasM, svClockDrift) of the GPS, QZSS, Galileo and BeiDou ephemerides (geostationary BeiDou satellites included), the RINEX orbital elements, the legacy engineering ephemeris and the almanacs return the Earth-fixed position the user algorithm of the system's interface document gives (its gravitational constant and rotation rate, time counted from the reference epoch across days and weeks, harmonic corrections, rates of inclination, node, semi-major axis and mean motion), the derivative of that position as velocity, the relativity correction, the clock polynomial as bias and its derivative as drift. GLONASS states satisfy the equations of motion of the GLONASS document (J2, rotation, luni-solar terms) and the clock bias less the relativity correction.",
     ["inputs"], "every extracted output expression of 46 member functions, as an identity over the reals",
     "Tests compare a few positions to stored numbers that the code itself produced, mostly GPS; wrong constants of another system, a missing rate, a wrong sign of a small correction or a factor in the velocity shift satellites by metres without failing them (several did, fixed here).",
     ["core/lib/GNSSEph/OrbitEph.cpp", "core/lib/GNSSEph/BDSEphemeris.cpp", "core/lib/GNSSEph/OrbElem.cpp", "core/lib/GNSSEph/BrcKeplerOrbit.cpp", "core/lib/GNSSEph/BrcClockCorrection.cpp", "core/lib/GNSSEph/EngEphemeris.cpp", "core/lib/GNSSEph/AlmOrbit.cpp", "core/lib/GNSSEph/GloEphemeris.cpp", "core/lib/GNSSCore/Xvt.cpp", "ext/lib/GNSSEph/OrbAlmGen.cpp"],
     [("broadcast orbits", "OrbitEph::svXvt, BDSEphemeris::svXvt, OrbElem::svXvt, BrcKeplerOrbit::svXvt, AlmOrbit::svXvt, OrbAlmGen::svXvt, GloEphemeris::svXvt"),
      ("clocks", "svClockBias, svClockDrift, svRelativity of the same classes, BrcClockCorrection, Xvt::computeRelativityCorrection")],
     "extraction of each output as an expression of the stored elements and times by abstract interpretation, and identity testing of the expression against the document's formula (random interpretation over the reals, summarised loops followed by their extracted recurrence)",
     "Two expressions that agree at some forty random points in every time regime are taken as equal; rounding of double arithmetic is not modelled (the expressions are read over the reals to 30 digits, tolerance 0.1 mm, 1e-14 s). The rate of the mean motion is left out of the velocity comparison, as in the documents' approximation." + TRUST)
prop("C16", "A point keeps its coordinates in every system, and geometry follows from them",
     "Transforming a Position between geodetic, geocentric, spherical and Cartesian coordinates, in any order, or asking it for any coordinate, gives the coordinates of the same point of space (to a millimetre) on the ellipsoid it is held on, within the ranges of the system (longitude in [0,360), latitude within the poles, non-negative radius), at and beside the poles, at the centre and at any height; constructors and setters keep what they are given, fold longitudes and refuse what lies outside; sums, differences and ranges are those of the points whatever systems they are held in; elevation, azimuth (geocentric and geodetic), ionospheric pierce points and radii of curvature, Triple's vector operations, radial/along/cross, ENU and NED components, Sagnac-corrected ranges and Helmert transformations are those of the geometry.",
     ["inputs"], "every path of the coordinate functions, decided at points of every region (poles, equator, centre, orbit heights, quadrant edges)",
     "Tests use a few points in the northern hemisphere and compare with numbers printed by the code; the failures are at the poles, at negative longitudes, at the centre, or when two positions are held in different systems (several were wrong, fixed here).",
     ["core/lib/GNSSCore/Position.cpp", "core/lib/Math/Triple.cpp", "core/lib/GNSSCore/Xvt.cpp", "ext/lib/GNSSCore/ENUUtil.hpp", "ext/lib/GNSSCore/NEDUtil.hpp", "core/lib/Math/RACRotation.cpp", "core/lib/GNSSCore/GPSEllipsoid.hpp", "core/lib/RefTime/HelmertTransform.hpp"],
     [("coordinates", "Position::transformTo, asGeodetic, getters, setGeodetic, setGeocentric, setSpherical, setECEF, constructors, convert*"),
      ("geometry", "Position::elevation*, azimuth*, getIonosphericPiercePoint, getCurv*, range, operators; Triple; ENUUtil, NEDUtil, RACRotation; Xvt::preciseRho; HelmertTransform::transform")],
     "extraction of every output coordinate with its path condition by abstract interpretation, and identity testing of the expressions against the defining equations of the ellipsoid at points of every region (iterations by their extracted recurrences)",
     "Expressions that agree at some forty points per region are taken as equal; rounding of double arithmetic is not modelled (expressions are read over the reals to 30 digits). The acos-based geocentric conversions lose up to a decimetre in double arithmetic near the poles: outside." + TRUST)

prop("C17", "Tropospheric and ionospheric corrections are those of the models",
     "Whatever calls came before, each tropospheric model (Simple, Zero, GCAT, GG, GGHeight, Saastamoinen, NB, Neill, MOPS, Global) gives the dry and wet zenith delays, mapping functions and slant correction of its published formula for the weather, heights, latitude, day of year and elevation given last, through every constructor, setter and correction overload; gives nothing below its lowest elevation; and refuses (InvalidTropModel) exactly while a condition it needs is missing or bad, becoming usable again when the condition is repaired. IonoModel gives the correction of IS-GPS-200 for coefficients in semicircles or radians on L1, L2 and L5 at any place and time, refuses other bands and a model without coefficients, and compares all eight coefficients.",
     ["inputs", "histories"], "every path of the models' functions after enumerated sequences of constructors and setters (good, bad, repeated and repaired conditions in every order), decided at sampled points of every regime",
     "Tests compare dumps that the code itself produced, for one constructor and one order of setters; southern seasons, refused weather, a setter that updates one of two fields or forgets the flag do not show (eleven such defects were found, fixed here).",
     ["core/lib/GNSSCore/TropModel.cpp", "core/lib/GNSSCore/SimpleTropModel.cpp", "core/lib/GNSSCore/GGTropModel.cpp", "core/lib/GNSSCore/GGHeightTropModel.cpp", "core/lib/GNSSCore/GCATTropModel.cpp", "core/lib/GNSSCore/SaasTropModel.cpp", "core/lib/GNSSCore/NBTropModel.cpp", "core/lib/GNSSCore/NeillTropModel.cpp", "core/lib/GNSSCore/MOPSTropModel.cpp", "core/lib/GNSSCore/GlobalTropModel.cpp", "core/lib/GNSSCore/IonoModel.cpp"],
     [("troposphere", "constructors, setWeather, setReceiverHeight, setReceiverLatitude, setDayOfYear, setAllParameters, correction, dry/wet_zenith_delay, dry/wet_mapping_function of every TropModel"),
      ("ionosphere", "IonoModel::setModel, getCorrection, operator==, operator!=")],
     "abstract interpretation of each call sequence into expressions of the arguments, guarded by the conditions under which the code returns or refuses, and identity testing of the expressions against the published models written out in the rule",
     "Call sequences have up to six steps; expressions that agree at the sampled points of each regime are taken as equal; rounding of double arithmetic is not modelled. Three deviations that the repository's own reference dumps pin are listed as known findings." + TRUST)

prop("C18", "Computed ranges are those of the signal's flight",
     "CorrectedEphemerisRange, the ord:: functions and PreciseRange give, for a receiver held in any coordinate system and a satellite of any position, velocity, clock and relativity, the geometric range from the satellite at the time of transmission to the receiver at the time of reception on the rotating Earth (transmission found from the reception time, from reception time and pseudorange, or given), the range corrected by satellite clock and relativity with the right signs, and the clock, drift, relativity, time of transmission, satellite position and velocity in the receiver's frame, direction cosines, elevations and azimuths that belong to it; the corrections for clock, relativity, troposphere, ionosphere and the ionosphere-free combination are those of their definitions. PRSolution and PRSolutionLegacy prepare each usable satellite's position at transmission and corrected pseudorange in its own row, mark and leave out satellites of other systems or without ephemeris, and report how many remain.",
     ["inputs"], "every path of the functions, for satellites and receivers sampled over the sky and the Earth",
     "Tests compare with stored output of one file; a receiver held in geodetic coordinates, a large satellite clock, a skipped satellite do not occur (two such defects were found, fixed here).",
     ["core/lib/GNSSEph/EphemerisRange.cpp", "core/lib/ORD/ord.cpp", "ext/lib/Geomatics/PreciseRange.cpp", "core/lib/PosSol/PRSolution.cpp", "ext/lib/PosSol/PRSolutionLegacy.cpp"],
     [("ranges", "CorrectedEphemerisRange::ComputeAt*, ord::RawRange1-4, PreciseRange::ComputeAtTransmitTime"), ("corrections", "ord::*Correction, ord::IonosphereFreeRange"),
      ("preparation", "PRSolution::PreparePRSolution, PRSolutionLegacy::PrepareAutonomousSolution")],
     "abstract interpretation of the functions, iterations by their extracted recurrences, with a satellite whose state is a symbolic function of the time asked for; identity testing of every output against the flight of the signal",
     "The store is any function of time, here quadratic in position; tolerance 2-6 mm (the models' own approximations, such as the flight time before rotation); arithmetic of CommonTime is C01-C04's; the position solution itself (least squares) and the antenna terms of PreciseRange are outside." + TRUST)

prop("C19", "GPS system data, almanacs and corrections decode as the interface says",
     "A GPS LNAV page (51-63), CNAV message (12-15, 30-37) or CNAV-2 page decoded into the library's objects yields each quantity from the bits, with the sign, scale and units, of IS-GPS-200 and IS-GPS-800, whatever the message's bits and whatever the object held before; truncated weeks and times of week are resolved to the week nearest the transmission across week and 256-week boundaries; a message of another kind is refused with InvalidParameter; the factory makes the object of the message's class; objects that differ in any quantity are not the same data; and what is asked of the loaded data (UTC offset before, around and after a leap second, validity windows, UT1 and pole, page numbers, range corrections, signal configurations) follows the interface, objects without data refusing with InvalidRequest.",
     ["inputs", "histories"], "every path of the decoders, the bit fields enumerated and tried with random and extreme values, weeks at and beside boundaries",
     "Tests decode a handful of recorded messages and compare with dumps of the same code; extreme values, week boundaries, leap seconds and unavailable delays do not occur in them (seventeen such defects were found, fixed here).",
     ["ext/lib/GNSSEph/OrbSysGpsL.cpp", "ext/lib/GNSSEph/OrbSysGpsL_51.cpp", "ext/lib/GNSSEph/OrbSysGpsL_52.cpp", "ext/lib/GNSSEph/OrbSysGpsL_55.cpp", "ext/lib/GNSSEph/OrbSysGpsL_56.cpp", "ext/lib/GNSSEph/OrbSysGpsL_63.cpp", "ext/lib/GNSSEph/OrbSysGpsC_30.cpp", "ext/lib/GNSSEph/OrbSysGpsC_32.cpp", "ext/lib/GNSSEph/OrbSysGpsC_33.cpp", "ext/lib/GNSSEph/CNavMidiAlm.cpp", "ext/lib/GNSSEph/CNavReducedAlm.cpp", "ext/lib/GNSSEph/DiffCorrBase.cpp", "ext/lib/GNSSEph/DiffCorrClk.cpp", "ext/lib/GNSSEph/DiffCorrEph.cpp", "ext/lib/GNSSEph/OrbAlmGen.cpp", "ext/lib/GNSSEph/OrbDataSysFactory.cpp"],
     [("layout", "loadData and the message constructors of OrbSysGpsL_*, OrbSysGpsC_*, CNavEOP, CNavUTC, CNavGGTO, CNavISC, CNavText, CNavMidiAlm, CNavReducedAlm, DiffCorrClk, DiffCorrEph, OrbAlmGen"),
      ("kind", "the same functions on messages of other kinds"), ("sameness", "isSameData of the same classes"),
      ("evaluation", "getUtcOffset, getUtcOffsetModLeapSec, isUtcValid, getxp, getyp, getUT1, getPageID, getSubframe, getERD, hasSignal, dumps, getTSC, OrbDataSysFactory")],
     "abstract interpretation of the decoders into expressions of bit fields of the message (which bits, sign, scale, under which conditions), compared with the field table of the interface specifications",
     "The accessors of PackedNavBits are C13's and taken as given; QZSS variants of the almanac and textual dumps are outside; text pages are compared by the bits they take, not by their spelling." + TRUST)
