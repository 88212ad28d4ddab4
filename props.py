"""Single source of the properties: mk.py generates properties.jsonl and MANIFEST.json from this file."""

PROPS = {}      # claimed: run.py runs these
NOT_APPLICABLE = {}


def prop(pid, title, statement, over, quant, why, files, mech, harness, rule, technique, note, level="exploration", **kw):
    PROPS[pid] = dict(id=pid, title=title, statement=statement, over=over, quant=quant, why=why, files=files, mech=mech,
                      harness=[h if isinstance(h, dict) else dict(name=h) for h in harness], rule=rule, technique=technique,
                      note=note, level=level, **kw)


def na(pid, title, statement, over, quant, why, files, mech, reason):
    NOT_APPLICABLE[pid] = dict(id=pid, title=title, statement=statement, over=over, quant=quant, why=why, files=files,
                               mech=mech, reason=reason)


I = ["inputs"]
IH = ["inputs", "histories"]

prop("P27", "Vector and point arithmetic is consistent",
     "A three-vector built in Cartesian, cylindrical or spherical coordinates reports the Cartesian components, radius, "
     "transverse radius, azimuth and polar angle of the same point, and sums, differences, negation, scaling, dot and cross "
     "products, unit vectors and equality agree with ordinary vector algebra. Fixed-size vectors read back exactly the components "
     "they were given and refuse an index outside their dimension with an exception, and a three-vector never reads outside its "
     "three components.",
     I, "all finite component values over many orders of magnitude and signs, all three coordinate systems, all index values",
     "The test programs only print vectors; no test compares a computed component, angle or product with anything.",
     ["include/gear/gearimpl/Vector3D.h", "src/gearimpl/Vector3D.cc", "include/gear/gearimpl/Vectors.h", "include/gear/GEAR.h"],
     [("coordinate tag constructors", "Vector3D.h: Vector3D(x,y,z,T)"), ("derived quantities phi/rho/theta/r/unit", "Vector3D.h"),
      ("bounds checked access", "Vectors.h: VectorND_T::operator[]")],
     ["p_vec"],
     "random vectors per case (log-uniform magnitudes, exact zeros, axis-aligned); a state is non-trivial and distinct by its octant/zero-pattern, "
     "magnitude decade and coordinate system",
     "reference-model monitor (long double vector algebra) on random inputs under ASan+UBSan",
     "Held on the executions explored; the oracle is an independent long double implementation.")

PADF = ["src/gearimpl/RectangularPadRowLayout.cc", "src/gearimpl/FixedPadSizeDiskLayout.cc", "src/gearimpl/FixedPadAngleDiskLayout.cc",
        "src/gearimpl/VersatileDiskRowLayout.cc", "src/gearimpl/FixedDiskLayoutBase.cc", "include/gear/PadRowLayout2D.h"]
PADW = "The test programs draw or print a few fixed layouts and compare nothing with an expected number."
PADR = "random layouts of all four kinds; distinct by kind, row count, pad count, radius/position bucket and full circle or not"
PADT = "reference-model monitor (independent geometric model of each layout) under ASan+UBSan+container assertions"
PADN = "Held on the executions explored; random layouts up to a few thousand pads."

prop("P14", "Pads are numbered without gaps, overlaps or ambiguity",
     "In every pad row layout each (row, pad number) pair has its own pad index, the index gives back exactly that row and pad number, "
     "the list of pads of a row contains each of its pads once and in order, and the rows together have exactly the reported number of pads. "
     "Row or pad numbers outside the layout are refused with an exception (or yield an empty list) and an empty layout is never read. "
     "A row that is refused leaves the layout as it was, and layouts with more rows or pads than an index can number are refused. "
     "Global pad indices compare and order by module and pad.",
     IH, "all layouts of the four kinds (including copies and layouts being extended row by row), all row and pad numbers inside and outside",
     PADW, PADF + ["include/gear/gearimpl/GlobalPadIndex.h"],
     [("index packing", "getPadIndex/getRowNumber/getPadNumber of each layout"), ("lazy row lists", "getPadsInRow"), ("row repetition", "RectangularPadRowLayout::repeatRows, VersatileDiskRowLayout::addRow")],
     ["p_pads"], PADR, PADT, PADN)
prop("P15", "Left and right pad neighbours are adjacent and mutually inverse",
     "The right and left neighbour of a pad is the adjacent pad of the same row, one pitch away, and taking the opposite neighbour leads back to the pad; "
     "right is towards larger x in a rectangular layout and towards smaller phi in a disk layout. "
     "The first and last pad of a row are neighbours of each other exactly if that row is a full circle, otherwise an exception reports that there is no neighbour.",
     I, "all pads of all layouts of the four kinds, sectors and full circles, rows with different coverage and offsets", PADW, PADF,
     [("neighbour functions", "getLeftNeighbour/getRightNeighbour of each layout")],
     ["p_pads"], PADR, PADT, PADN)
prop("P16", "Point lookup finds the right pad and distance",
     "For every point, inside or outside the layout and with the angle in any 2 pi range, the reported nearest pad is a valid pad of the layout, is the pad containing the point if there is one, "
     "and for disk layouts and rectangular layouts whose rows are covered by pads without gaps or offsets no other pad is closer. "
     "The inside-pad queries are true exactly for points in the area of the pad (of some pad), and the distance to a pad is the Euclidean distance to its area (disk layouts: its cell including gaps), zero inside.",
     I, "all layouts of the four kinds with random row heights, gaps and offsets; points in pads, in gaps, near borders, outside, and with angles shifted by multiples of 2 pi",
     PADW, PADF, [("nearest pad search", "getNearestPad of each layout"), ("inside tests", "isInsidePad"), ("distance", "FixedDiskLayoutBase::getDistanceToPad, RectangularPadRowLayout::getDistanceToPad")],
     ["p_pads"], PADR, PADT, PADN + " Points closer than 1e-9 (relative) to a border are not judged.")
prop("P17", "Pad centres, sizes and plane extents describe one geometry",
     "Pad centre, pad width, height and pitch, row height and plane extent of every layout agree with the row description it was built from: pads sit in their row at equal pitch, "
     "the centre lies inside the pad and is found by point lookup, and the extent is the smallest range containing all rows. The layout reports its own type and coordinate system.",
     I, "all layouts of the four kinds and their copies, all pads", PADW, PADF,
     [("geometry getters", "getPadCenter/getPadPitch/getPadWidth/getPadHeight/getPlaneExtent"), ("row construction", "constructors and addRow")],
     ["p_pads"], PADR, PADT, PADN)

XMLN = "Held on the executions explored; numbers are compared to 2e-9 relative, names and texts exactly."
XMLT = "round-trip monitor: every observable fact of the detector description is recorded before writing and after reading and the two records are compared, under ASan+UBSan"
XMLR = "random descriptions; a state is the structural summary of a description (which parts, kinds, counts) together with its number of facts"
XMLW = "The tests round-trip a handful of fixed steering files and compare nothing, or compare printed text of a few values."
XMLQ = "all descriptions that can be built through the interface: numbers of any magnitude and sign, names and texts with XML special characters, blanks, UTF-8, any number of layers and parameters"
GX = ["src/gearxml/GearXML.cc", "src/gearxml/GearParametersXML.cc", "src/gearxml/tinyxml.cc", "src/gearxml/tinyxmlparser.cc"]

prop("P04", "Generic parameters, materials, field and global data survive a write and read",
     "Writing a detector description with GearXML and reading it back gives the same detector name, magnetic field, simple materials and the same named int, double, string "
     "and vector parameters of every section, with the same names, types, values, element counts and order; writing and reading again changes nothing more, and a complete description of all detectors survives in the same way.",
     I, XMLQ, XMLW, GX + ["src/gearxml/SimpleMaterialXML.cc", "src/gearxml/ConstantBFieldXML.cc", "src/gearxml/GearParametersXML.cc"],
     [("parameter writing and reading", "GearParametersXML.cc: getXMLForParameters/setParametersFromXML"), ("document assembly", "GearXML.cc: createXMLFile/createGearMgr")],
     ["p_xml"], XMLR, XMLT, XMLN)
prop("P05", "Calorimeters survive a write and read",
     "Every calorimeter section (barrel, endcap, plug, ring, forward, beam calorimeters and yokes) that is written to XML and read back has the same shape, symmetry, phi0, extent and "
     "the same layers with the same distance, thickness, cell sizes and absorber thickness, also where equal layers are written as one repeated entry.",
     I, XMLQ, XMLW, GX + ["src/gearxml/CalorimeterParametersXML.cc", "src/gearimpl/LayerLayoutImpl.cc", "src/gearimpl/CalorimeterParametersImpl.cc"],
     [("layer grouping", "CalorimeterParametersXML.cc: toXML"), ("layer expansion", "CalorimeterParametersXML.cc: fromXML")],
     ["p_xml"], XMLR, XMLT, XMLN)
prop("P06", "Planar vertex and silicon trackers survive a write and read",
     "VXD, SIT and SET descriptions written to XML and read back have the same type, shell and the same layers, each with its ladder number, phi0 and the distance, offset, thickness, length, width and radiation length of ladders and sensitive parts.",
     I, XMLQ, XMLW, GX + ["src/gearxml/ZPlanarParametersXML.cc", "src/gearxml/ZPlanarParametersXML.cc", "src/gearimpl/ZPlanarLayerLayout.cc"],
     [("layer writing and reading", "ZPlanarParametersXML.cc: toXML/fromXML")], ["p_xml"], XMLR, XMLT, XMLN)
prop("P07", "Forward tracking disks survive a write and read",
     "An FTD description written to XML and read back has the same disks on both sides, each with its petals, sensor type and number, angles, z positions, offsets and the size, thickness and radiation length of support and sensitive parts.",
     I, XMLQ, XMLW, GX + ["src/gearxml/FTDParametersXML.cc", "src/gearimpl/FTDLayerLayoutImpl.cc"],
     [("layer writing and reading", "FTDParametersXML.cc: toXML/fromXML")], ["p_xml"], XMLR, XMLT, XMLN)
prop("P08", "Telescope planes survive a write and read",
     "Silicon plane telescopes (with or without device under test) and tracker plane telescopes written to XML and read back have the same setup numbers and the same planes, each with ID, position, size, thickness, rotation or orientation, pixel numbers, pitch, resolution, radiation length and info of ladder and sensitive parts.",
     I, XMLQ, XMLW, GX + ["src/gearxml/SiPlanesParametersXML.cc", "src/gearxml/TrackerPlanesParametersXML.cc", "src/gearimpl/SiPlanesLayerLayout.cc", "src/gearimpl/TrackerPlanesLayerLayout.cc"],
     [("layer writing and reading", "SiPlanesParametersXML.cc, TrackerPlanesParametersXML.cc: toXML/fromXML")], ["p_xml"], XMLR, XMLT, XMLN)
prop("P09", "TPC descriptions survive a write and read",
     "A TPC written to XML and read back has the same drift length and velocity, coordinate type, extent and the same modules with ID, offset, angle, z position, readout frequency, active area border and "
     "a pad layout of the same kind in which every pad has the same index, position and size, for one and for many modules and all four layout kinds.",
     I, XMLQ, XMLW, GX + ["src/gearxml/TPCParametersXML.cc", "src/gearxml/TPCModuleXML.cc", "src/gearxml/PadRowLayout2DXML.cc", "src/gearxml/RectangularPadRowLayoutXML.cc", "src/gearxml/FixedPadSizeDiskLayoutXML.cc", "src/gearxml/FixedPadAngleDiskLayoutXML.cc", "src/gearxml/VersatileDiskRowLayoutXML.cc"],
     [("module writing and reading", "TPCParametersXML.cc, TPCModuleXML.cc"), ("layout writing and reading", "*LayoutXML.cc: toXML/fromXML")], ["p_xml"], XMLR, XMLT, XMLN)
prop("P10", "Documents are read faithfully or refused",
     "A valid GEAR document, whatever its formatting (order of attributes and unrelated elements, quotes, white space, comments, entities, unknown extra elements), yields exactly the description its text states, equal to one built directly through the interface. "
     "An absent optional attribute means its default, a detector without geartype is left out, and a document that lacks a mandatory element or attribute or names an unknown geartype, layout, technology or type is refused with a GEAR exception, again if the same reader is asked again.",
     I, "all documents of the GEAR format, in any equivalent formatting, with any single mandatory or optional item absent", "The tests read a few files of one formatting style and never a wrong one.",
     GX + ["src/gearxml/XMLHandlerMgr.cc", "include/gear/gearxml/XMLHandler.h"], [("document reading", "GearXML.cc: createGearMgr"), ("handlers", "*XML.cc: fromXML"), ("mandatory attributes", "XMLParser / getXMLAttribute")],
     ["p_xml"], "random documents; a state is the structural summary of a document or the removed item with its context",
     "reference-model monitor: the text is rendered from an independent element tree and every fact read is compared with it, removal faults are injected; under ASan+UBSan", XMLN)
prop("P12", "The XML library stores, edits, prints and parses documents faithfully",
     "A document built, edited or copied through the XML classes always shows exactly the nodes, values, attributes and relations (parent, siblings, named and typed navigation, handles) that the edits imply; "
     "saving or streaming it and loading it again gives an equal document; copies and clones are equal and independent. Parsing any equivalent formatting of a text gives the same content, with the row and column of every element, "
     "white space is condensed or kept as configured, and a document that is not well formed is reported as an error.",
     IH, "all documents over all node types with attributes and texts containing XML special characters and UTF-8, all sequences of edits, all equivalent formattings, cut and damaged texts",
     "No test edits a document; the tests only load a few files.",
     ["src/gearxml/tinyxml.cc", "src/gearxml/tinyxmlparser.cc", "src/gearxml/tinyxmlerror.cc", "include/gear/gearxml/tinyxml.h"],
     [("node list and attribute set", "tinyxml.cc: TiXmlNode, TiXmlAttributeSet"), ("printing and escaping", "tinyxml.cc: Print, StreamOut, PutString"), ("parsing", "tinyxmlparser.cc")],
     ["p_dom"], "random documents and edit histories; a state is the sequence of edit kinds with the final size, or the size class of a parsed text",
     "reference-model monitor (independent tree) on random edit histories and round trips under ASan+UBSan+LSan",
     "Held on the executions explored. Excluded: values containing the sequence &#x (passed through by design), white space at the ends of texts, adjacent text nodes in round trips.")
prop("P13", "Merging keeps everything and lets the primary file win",
     "Merging two GEAR files gives a file that holds every section, detector, material, parameter and attribute that is in either of them; where both have the same element, the attribute values of the dominant file "
     "(the second one, unless the other is made dominant) are kept. The result can be read and describes all detectors of both files, however often the same merger is used. Repeated elements are merged one by one, and different numbers of them are refused with an exception, "
     "while a file that is no GEAR file or cannot be read to its end makes the merger report failure and is never merged as far as it goes.",
     IH, "all pairs of GEAR documents with any distribution of sections, detectors, materials and parameters over the two, all choices of the dominant file, repeated use",
     "One test merges two fixed files and does not look at the result.", ["src/gearxml/MergeXML.cc", "include/gear/gearxml/MergeXML.h", "src/test/mergeXML.cc"],
     [("merge recursion", "MergeXML.cc: mergeNode/mergeAttribute"), ("dominance", "MergeXML.cc: mergeFiles/makeDominant")],
     ["p_merge"], "random pairs of documents; a state is the structural summary of the documents with the distribution over the files and the merges done",
     "reference-model monitor (independent merge of element trees, and a split description whose parts must merge to the whole) under ASan+UBSan+LSan",
     "Held on the executions explored. Elements without name attribute are merged one level deep, as the code documents.")
prop("P34", "A description that cannot be written is reported",
     "If a description or document cannot be written completely, at whatever byte the write fails, createXMLFile reports it with a GEAR exception and the XML library and the merger report failure; "
     "no success is ever reported for a missing or truncated file, and a later write to a good place succeeds.",
     ["inputs", "crash_points"], "all descriptions, all offsets at which the file system refuses further data, targets that cannot be opened", "No test makes a write fail.",
     ["src/gearxml/GearXML.cc", "src/gearxml/tinyxml.cc", "src/gearxml/MergeXML.cc"], [("saving", "tinyxml.cc: TiXmlDocument::SaveFile"), ("writing", "GearXML.cc: createXMLFile")],
     ["p_merge"], "random descriptions with an injected write fault; a state is the kind and place of the fault",
     "fault injection (file size limit at a random byte, full device, unwritable target) with a monitor of the reported result under ASan+UBSan", "Held on the executions explored.")
prop("P11", "Hostile XML files never crash, hang or corrupt memory",
     "Reading or merging any file, however damaged (truncated anywhere, bytes changed, elements or attributes missing, repeated, misplaced or with absurd values), ends with a description or with a GEAR exception; "
     "it never accesses memory out of bounds or after it was freed, never calls through a null pointer, never ends in an undefined operation, an endless loop or an exception of another kind. A document cut off before its end is always refused.",
     I, "all byte strings, with the counts in the document and the nesting bounded (they decide how much has to be built) and the numbers of TPC modules and pad layouts finite and below 1e6", "The tests read well formed files only.",
     ["src/gearxml/tinyxmlparser.cc", "src/gearxml/GearXML.cc", "src/gearxml/MergeXML.cc", "src/gearxml/TPCParametersXML.cc", "src/gearxml/PadRowLayout2DXML.cc", "src/gearxml/FTDParametersXML.cc"],
     [("parser bounds", "tinyxmlparser.cc"), ("checked access to elements", "*XML.cc: fromXML"), ("exception translation", "GearXML.cc: createGearMgr")],
     ["p_fuzz"], "mutated documents; a state is the sequence of mutation kinds with size class and outcome",
     "ASan+UBSan+container assertions on mutated documents, with monitors for the kind of outcome and a CPU budget per document", "Held on the executions explored.")

TPCF = ["src/gearimpl/TPCModuleImpl.cc", "include/gear/TPCModule.h", "include/gear/gearimpl/TPCModuleImpl.h"]
TPCR = "random modules (pad layout, coordinate types, offset, angle, border, end plate, settings in any order); a state is this configuration"
prop("P18", "Module coordinates transform consistently between pad plane and TPC",
     "For every TPC module, whatever its pad layout, offset, rotation, end plate (x mirrored for z at or below zero) and the order in which these were set, converting local to global coordinates is the rotation, translation and mirroring these describe, "
     "converting back returns the same point, and pad centres are given in global coordinates. All indices, sizes and neighbours are those of the pad layout, and looking up the centre of any pad finds that pad.",
     IH, "all pad layouts, coordinate types, offsets, angles, z positions, orders of settings and points (polar TPC with cartesian pads: without offset and angle)", "Tests check a few points of three modules.",
     TPCF, [("transform", "TPCModuleImpl.cc: localToGlobal/globalToLocal"), ("settings", "TPCModuleImpl.cc: setOffset/setAngle/setZPosition")],
     ["p_tpc"], TPCR, "reference-model monitor (independent rigid transformation) on random modules under ASan+UBSan", "Held on the executions explored; coordinates compared to 1e-9 of the module scale.")
prop("P19", "Module area, distances and extents describe the module",
     "For every TPC module a global point is inside the module exactly if it lies in the pad plane enlarged by the border, its distance to the module is the distance to that area (zero inside), and it is inside a pad exactly if one of the pads contains it. "
     "The global extents of pad plane and module contain every point of these areas and, in a cartesian TPC, are not larger than needed.",
     IH, "all pad layouts, coordinate types, offsets, angles, borders, z positions, orders of settings and points", "Tests check a few points of three modules.",
     TPCF, [("area", "TPCModuleImpl.cc: isInsideModule/getDistanceToModule/isInsidePad"), ("extents", "TPCModuleImpl.cc: calculateGlobalExtent*")],
     ["p_tpc"], TPCR, "reference-model monitor (independent area and distance computation) on random modules and points under ASan+UBSan", "Held on the executions explored; points closer than 1e-6 of the module scale to a boundary are not judged.")
prop("P20", "The TPC finds the right module and pad",
     "In a TPC with any set of modules, modules are found by their ID (unknown and duplicated IDs and modules for another coordinate type are refused with a GEAR exception), and the nearest module, the nearest pad and the inside tests for a point are those over all modules, "
     "or, if z is given, over all modules of the half of the TPC in which z lies relative to the cathode. The extent covers all module extents, and queries that need a module, or exactly one, are refused with an exception otherwise.",
     IH, "all sets of modules on one or both end plates, with or without z positions, all points, all orders of insertion", "Tests check one TPC with a few points.",
     ["src/gearimpl/TPCParametersImpl.cc", "include/gear/TPCParameters.h", "include/gear/gearimpl/TPCParametersImpl.h"], [("lookup", "TPCParametersImpl.cc: getNearestModule/getNearestPad/isInside*"), ("halves", "TPCParametersImpl.cc: setCathodePosition/addModule")],
     ["p_tpc"], "random TPCs; a state is the coordinate type, end plate mode and number of modules with the number of points inside", "reference-model monitor (brute force over modules and pads) on random TPCs under ASan+UBSan+LSan", "Held on the executions explored.")

prop("P01", "The manager hands out exactly what was registered",
     "After any sequence of registrations a detector manager returns for every sub detector, the field, the point and distance properties, every named parameter set and material exactly the object registered last, lists exactly the registered keys and material names, and answers every request for something not registered with the exception for unknown parameters. "
     "A second material of the same name is refused and changes nothing, registering no parameter set is ignored, and the forward calorimeters always have a crossing angle.",
     ["histories"], "all sequences of registrations, replacements and queries over all sub detectors, keys and materials", "Tests register each item once.",
     ["src/gearimpl/GearMgrImpl.cc", "include/gear/GearMgr.h", "include/gear/gearimpl/GearMgrImpl.h"], [("getters and setters", "GearMgrImpl.cc"), ("materials", "GearMgrImpl.cc: registerSimpleMaterial/getSimpleMaterial")],
     ["p_mgr"], "random registration histories; a state is the sequence of registrations", "reference-model monitor (map of registered objects) on random histories under ASan+UBSan", "Held on the executions explored.")
prop("P02", "Everything handed over is deleted exactly once",
     "The manager, the TPC and its modules own what they are given: replacing an object deletes the replaced one, registering the same object again does not, objects that were refused stay with the caller, and destroying the owner deletes everything it owns exactly once, in every history of registrations, copies and replacements. "
     "Building, reading, copying, writing and destroying complete descriptions leaves no memory behind and never uses deleted memory.",
     IH, "all histories of registration, replacement, copy and destruction; all descriptions", "No test looks at memory.",
     ["src/gearimpl/GearMgrImpl.cc", "src/gearimpl/TPCParametersImpl.cc", "src/gearimpl/TPCModuleImpl.cc", "src/gearxml/GearXML.cc", "src/gearxml/TrackerPlanesParametersXML.cc"], [("manager", "GearMgrImpl.cc: set*/cleanup"), ("TPC", "TPCParametersImpl.cc: addModule/cleanup/copy_and_assign"), ("reading", "*XML.cc: fromXML")],
     ["p_mgr"], "random histories with objects that report their destruction; a state is the sequence of operations", "life-cycle monitor (every observed object must die exactly once, at the right time) with ASan and a LeakSanitizer scan after every case", "Held on the executions explored. Files that are refused are the subject of P39.")
prop("P03", "The typed parameter store returns what was stored",
     "Every object with named parameters keeps its int, double, string and vector parameters in separate name spaces: each returns the value stored last under its name and type, lists exactly the names stored for the type, and throws the exception for unknown parameters for every other name, in every history of settings and queries and for every class that carries parameters.",
     IH, "all sequences of settings and queries with any names and values, for all classes with parameters", "Tests set a handful of parameters once.",
     ["src/gearimpl/GearParametersImpl.cc", "include/gear/gearimpl/GearParametersImpl.h", "include/gear/GearParameters.h"], [("store", "GearParametersImpl.cc")],
     ["p_mgr"], "random histories; a state is the class with the sequence of operations", "reference-model monitor (typed maps) on random histories under ASan+UBSan", "Held on the executions explored.")
prop("P33", "Copies are equal and independent",
     "A copy, clone or assigned object of any copyable description class (parameter sets, calorimeters, planar and forward trackers, telescope, TPC, TPC modules, pad layouts, field) answers every query like its original, and afterwards neither changing nor deleting one of the two affects the other; assigning an object to itself changes nothing.",
     IH, "all objects of the copyable classes, all sequences of copy, assignment, change and deletion", "One test copies a module.",
     ["src/gearimpl/TPCParametersImpl.cc", "src/gearimpl/TPCModuleImpl.cc", "src/gearimpl/RectangularPadRowLayout.cc", "src/gearimpl/FixedPadSizeDiskLayout.cc", "src/gearimpl/FixedPadAngleDiskLayout.cc", "src/gearimpl/VersatileDiskRowLayout.cc", "src/gearimpl/CalorimeterParametersImpl.cc"], [("copy and assignment", "copy_and_assign, operator=, clone")],
     ["p_mgr"], "random objects; a state is the kind of object with its size", "snapshot monitor (all answers of original and copies before and after changes) with ASan and LeakSanitizer", "Held on the executions explored.")

prop("P28", "Measurement surfaces transform points and test boundaries correctly",
     "For every measurement surface the conversion between local and global coordinates is the rotation and translation it was built with, in both directions, its axes and origin are those of this transformation, "
     "and a point, given in local or global coordinates, is within the surface exactly if it lies in the rectangle or trapezoid of the given size, rotated about the normal, with its distance to the plane not above the given limit (limits included). A surface without boundary contains every point.",
     I, "all rotations, translations, sizes, in-plane angles and points", "No test uses the surface classes.",
     ["src/gearsurf/CartesianCoordinateSystem.cc", "src/gearsurf/BoundaryRectangle.cc", "src/gearsurf/BoundaryTrapezoid.cc", "src/gearsurf/MeasurementSurface.cc"],
     [("transform", "CartesianCoordinateSystem.cc"), ("boundaries", "BoundaryRectangle.cc, BoundaryTrapezoid.cc: isInBoundary"), ("surface", "MeasurementSurface.cc")],
     ["p_surf"], "random surfaces and points; a state is the kind of surface with the numbers of points inside and outside",
     "reference-model monitor (independent rotation matrices and signed margins) under ASan+UBSan", "Held on the executions explored; points closer than rounding to a limit are judged only for exactly representable limits. Trapezoids have a height above zero.")
prop("P29", "The surface store holds what it was filled with",
     "A measurement surface store is filled once: it then returns for every ID exactly the surface delivered by the filler, names the filler, refuses unknown IDs and any further fill with a GEAR exception and stays unchanged, and so do its copies and the store of a manager. "
     "A store that was not filled, or whose filler delivered an ID twice, says so and names no filler. Every surface is deleted exactly once, with the last store that holds it, together with its coordinate system and boundary.",
     ["histories", "inputs"], "all sets of IDs, all sequences of filling, refilling, copying and deleting", "No test uses the store.",
     ["src/gearsurf/MeasurementSurfaceStore.cc", "include/gear/gearsurf/MeasurementSurfaceStore.h", "src/gearsurf/MeasurementSurface.cc"],
     [("fill and lookup", "MeasurementSurfaceStore.cc")], ["p_surf"], "random fill histories with parts that report their destruction; a state is the size with the sequence of operations",
     "reference-model and life-cycle monitor under ASan+UBSan+LSan", "Held on the executions explored.")

prop("P21", "Calorimeter layers and extents are consistent",
     "For every calorimeter, in every history of adding and positioning layers, layer i has exactly the distance, thickness, absorber thickness and cell sizes given, where a layer added without position begins where the previous one ends (the first at zero); "
     "the extent is the given inner and outer radius and z limits with the outer radius of a barrel, or the outer z of an endcap, where the last layer ends. Indices that do not exist are refused with an exception.",
     IH, "all shapes, symmetries, layer sequences and mixtures of adding and positioning", "Tests look at a few layers of one calorimeter.",
     ["src/gearimpl/LayerLayoutImpl.cc", "src/gearimpl/CalorimeterParametersImpl.cc", "include/gear/gearimpl/LayerLayoutImpl.h"], [("layers", "LayerLayoutImpl.cc: addLayer/positionLayer"), ("extent", "CalorimeterParametersImpl.cc: getExtent")],
     ["p_det"], "random build histories; a state is the shape with the sequence of additions", "reference-model monitor on random build histories under ASan+UBSan", "Held on the executions explored.")
prop("P25", "Forward disks are placed symmetrically and sensors on the right side",
     "For every forward tracking disk layout with N disks, indices 0 to N-1 are the disks at positive z and N to 2N-1 their mirror images, with the same petals and sizes. Each petal is at the disk position plus or minus the staggering offset, alternating from the sign of petal 0, and at its azimuthal angle; "
     "each sensor touches its support on the side facing the interaction point, or on the far side for the second half of the sensors of a double sided petal, and sensor numbers or disks that do not exist are refused with an exception.",
     I, "all numbers of disks, petals and sensors, all positions, offsets and thicknesses", "Tests print a few positions of one layout.",
     ["src/gearimpl/FTDLayerLayoutImpl.cc", "include/gear/gearimpl/FTDLayerLayoutImpl.h", "include/gear/FTDLayerLayout.h"], [("disk index", "FTDLayerLayoutImpl.cc: getEquivLayer"), ("positions", "FTDLayerLayoutImpl.cc: getSupportZposition/getSensitiveZposition/getPhiPetalCd")],
     ["p_det"], "random layouts, all petals and sensors; a state is the number of disks and petals", "reference-model monitor on all petals and sensors of random layouts under ASan+UBSan", "Held on the executions explored. The incident-angle thickness and start and end angles, marked unfinished in the interface, are not covered; double sided petals have an even number of sensors.")
prop("P26", "Telescope planes keep every value in its place",
     "For every telescope, in every history of adding planes, setting a device under test and changing single values, each plane answers every query about its ladder and sensitive part with exactly the value given for it last, no other plane or value changes, and setup numbers are kept. "
     "Tracker planes are kept as copies in order, found by index and by ID (the first of equal IDs), with all their material and sensitive layers; anything that does not exist is answered by an exception or by no plane.",
     IH, "all values of all items of all planes, all orders of additions and changes", "No test reads back more than a few values.",
     ["src/gearimpl/SiPlanesLayerLayout.cc", "include/gear/gearimpl/SiPlanesLayerLayoutImpl.h", "src/gearimpl/TrackerPlanesLayerLayout.cc", "include/gear/gearimpl/TrackerPlanesLayerLayoutImpl.h"], [("planes", "SiPlanesLayerLayout.cc: addLayer/addDUT"), ("tracker planes", "TrackerPlanesLayerLayout.cc, TrackerPlanesLayerLayoutImpl.h")],
     ["p_det"], "random histories; a state is the sequence of operations", "reference-model monitor (table of all named items) on random histories under ASan+UBSan", "Held on the executions explored. The resolutions in x and y of planes added in the short form are not judged.")

ZF = ["src/gearimpl/ZPlanarParametersImpl.cc", "src/gearimpl/ZPlanarLayerLayout.cc", "include/gear/ZPlanarParameters.h", "include/gear/ZPlanarLayerLayout.h", "include/gear/gearimpl/ZPlanarParametersImpl.h"]
ZQ = "all numbers of layers and ladders, all azimuth angles, distances, offsets, thicknesses, lengths, widths, gaps and shells, all points and directions"
ZR = "random detectors with many points or rays each, aimed at the surfaces; a state is the shape of the detector with the numbers of each outcome"
prop("P22", "A planar tracker knows which ladder and sensor contains a point",
     "For every planar vertex or silicon tracker a point is in a ladder, or in a sensitive volume, exactly if it lies in one of the boxes described by distance, thickness, width, offset, length, azimuth angle, number of ladders and gap, at positive or negative z alike. "
     "The sensor found for a point names a layer and module, counted in the direction of increasing phi from the first ladder, whose sensitive volume contains the point, and the side in z; without a hit it is left untouched.",
     I, ZQ, "Tests check a handful of points of one detector.", ZF, [("point test", "ZPlanarParametersImpl.cc: isPointInLadder"), ("layer geometry", "ZPlanarLayerLayout.cc")],
     ["p_zplanar"], ZR, "reference-model monitor (independent box geometry) on random detectors and points under ASan+UBSan", "Held on the executions explored. Points within the tolerance of the code (0.1 micrometre scaled with the thickness) of a surface are not judged; a shell, where given, encloses the ladders.")
prop("P23", "The vector to the nearest ladder is the shortest one",
     "For every planar tracker and every point, also on the axes and at the origin, the vector to the nearest ladder or sensitive volume ends on it and is not longer than the distance to any other, and it is zero for points inside; without ladders it is zero.",
     I, ZQ, "Tests check a handful of points of one detector.", ZF, [("distance", "ZPlanarParametersImpl.cc: distanceToNearestLadder/distanceToPlane")],
     ["p_zplanar"], ZR, "reference-model monitor (brute force over all boxes) on random detectors and points under ASan+UBSan", "Held on the executions explored, within the tolerance of the point test.")
prop("P24", "A straight line meets the ladders where it first crosses one",
     "For every planar tracker the intersection of a straight line, followed from its starting point in its direction, is the first point where it crosses the surface of a ladder or sensitive volume, on either side in z, and the origin is returned exactly if it crosses none; the length of the direction vector does not matter.",
     I, ZQ, "Tests intersect a few lines.", ZF, [("intersection", "ZPlanarParametersImpl.cc: intersectionLadder/planeLineIntersection/correctToBorderPoint")],
     ["p_zplanar"], ZR, "reference-model monitor (independent slab intersection over all boxes) on random detectors and lines under ASan+UBSan", "Held on the executions explored. Lines that graze an edge or start on a surface are not judged; distances are below 90 m.")

prop("P30", "Printing shows the whole description and changes nothing",
     "Printing any detector description, or any section of it, to a stream shows every parameter, dimension, layer (of equal neighbouring calorimeter layers at least one), plane, module and material with its value in the precision of the stream or column, each section under its own title and once, whatever the size of the values and the length of the names. "
     "Printing never changes the description or the format of the stream.",
     I, "all descriptions, all sizes of values and lengths of texts, all stream formats", "Tests print fixed descriptions and look at nothing but the absence of a crash.",
     ["src/gearimpl/Util.cc", "include/gear/gearimpl/Util.h", "include/gear/gearimpl/TrackerPlanesLayerLayoutImpl.h"], [("printing", "Util.cc: operator<<"), ("tracker planes", "TrackerPlanesLayerLayoutImpl.h: PrintLayers")],
     ["p_print"], "random descriptions and stream formats; a state is the description with the format", "oracle on the printed text (parsed back and compared with the interface) of random descriptions under ASan+UBSan", "Held on the executions explored. Columns of tables are compared with their fixed number of decimals; the titles of sections that are not set are not judged.")

prop("P35", "Steering files may use defaults, any order and any spelling",
     "For every steering file, a module of the time projection chamber takes each item it does not give itself from the default of its block (the first one until a later one replaces it), modules without ID are counted from the start value of their block, and a module that still lacks a mandatory item or repeats an ID is refused. "
     "Calorimeters and silicon trackers are recognised by the key word in their name in upper or lower case (barrel or endcap by their layout), the last description of a detector replaces an earlier one completely, and the order of blocks and the way numbers are written do not matter.",
     I, "all sequences of blocks, defaults and modules, all spellings of names and numbers", "Tests read a few files in one form.",
     ["src/gearxml/TPCParametersXML.cc", "src/gearxml/TPCModuleXML.cc", "src/gearxml/CalorimeterParametersXML.cc", "src/gearxml/ZPlanarParametersXML.cc", "src/gearxml/GearXML.cc"],
     [("module defaults", "TPCModuleXML.cc: fromXML, TPCParametersXML.cc: fromXML"), ("routing", "CalorimeterParametersXML.cc, ZPlanarParametersXML.cc: fromXML")],
     ["p_steer"], "random documents; a state is the sequence of modules and defaults or the description of the sections", "reference-model monitor: an independent reading of the same element tree is compared with every fact read, under ASan+UBSan", "Held on the executions explored. Names contain exactly one key word; a detector name that contains none is not judged.")

prop("P31", "Threads with descriptions of their own do not disturb each other",
     "Threads that build, write, read, merge, print and query separate detector descriptions at the same time, from the first use of the library in a process on and also if files are refused, never race for the same memory, and every thread gets exactly the results and files it gets alone. "
     "Threads that only query one finished description by name, index or position never race either and get the answers a single thread gets.",
     ["schedules", "histories"], "all interleavings of all operations on separate descriptions and of queries of a shared one", "Tests have one thread.",
     ["src/gearxml/XMLHandlerMgr.cc", "src/gearxml/PadRowLayout2DXML.cc", "src/gearxml/GearXML.cc", "src/gearxml/tinyxml.cc", "src/gearimpl/GearMgrImpl.cc"],
     [("handler tables", "XMLHandlerMgr.cc: getHandler, PadRowLayout2DXML.cc: getHandler/map"), ("parser state", "tinyxml.cc")],
     [dict(name="p_mt", variant="tsan", env={"TSAN_OPTIONS": "halt_on_error=1:exitcode=66:report_signal_unsafe=0:history_size=4:second_deadlock_stack=1"}, jobs=4, cpu=60)],
     "2 to 4 threads with random jobs and injected pauses; a state is the order in which the threads end their operations", "ThreadSanitizer happens-before race detection and comparison with a serial repetition of every job",
     "Held on the interleavings observed. Not covered: queries of a shared description that fill a cache on first use (lists of names, extents of calorimeters, pads in a row), and writing or printing a shared description; registering handlers while reading.")

prop("P32", "A material map holds the material to every grid point",
     "For every grid in cartesian, cylindrical or spherical coordinates a material map returns at each grid point, the last one of every axis included, the radiation and interaction lengths from the vertex to that point, between grid points the mean of the surrounding grid points weighted with the inverse distance, and outside the grid an exception. "
     "Grids that are not valid in the coordinate system are refused before the geometry is asked; the factory builds one map for each grid and coordinate system, and a failed attempt can be repeated.",
     IH, "all grids, numbers of steps down to none, coordinate systems, points and orders of requests", "The test programs need a geometry that is not installed and print values.",
     ["src/geartgeo/MaterialMap.cc", "src/geartgeo/MaterialMapFactory.cc", "include/gear/geartgeo/MaterialMap.h"], [("grid", "MaterialMap.cc: constructor"), ("interpolation", "MaterialMap.cc: interpolateOnGrid"), ("cache", "MaterialMapFactory.cc: createMaterialMap")],
     [dict(name="p_matmap", extra_src=("src/geartgeo/MaterialMap.cc", "src/geartgeo/MaterialMapFactory.cc"))],
     "random grids over an analytic geometry; a state is the shape of the grid, the kind of refusal or the sequence of requests", "reference-model monitor (analytic geometry, independent interpolation) on random grids and points under ASan+UBSan", "Held on the executions explored. The geometry behind the map is an analytic stand-in; grid steps are above 5 micrometres, the border is judged within a rounding tolerance of 10 nanometres, and points closer than one micrometre to a grid point only at the grid point itself.")

TGEO = [dict(name="p_tgeo", extra_src=("src/geartgeo/*.cc",), mock="tgeo", env={"LD_LIBRARY_PATH": __import__("os").path.join(__import__("os").path.dirname(__import__("os").path.abspath(__file__)), "build", "stub")})]
prop("P36", "Material along a straight line is complete and in order",
     "For every geometry and every two points the material names, volume names and thicknesses list, in order and in arrays of equal length, the volumes the straight line from the first to the second point crosses with the length of the line in each, adding up to the distance of the points or to the edge of the geometry, and the numbers of radiation and interaction lengths are the sums of the thicknesses divided by those lengths of the materials. "
     "Volumes that touch or nearly touch and navigation steps that do not advance do not change that; equal points have nothing between them, a start outside the geometry is refused with an exception every time, and no answer depends on earlier queries.",
     IH, "all geometries, pairs of points and orders of queries", "The test program needs a geometry package that is not installed and prints values.",
     ["src/geartgeo/TGeoGearDistanceProperties.cc", "include/gear/geartgeo/TGeoGearDistanceProperties.h"], [("tracking", "TGeoGearDistanceProperties.cc: beamOn"), ("memory of the last line", "TGeoGearDistanceProperties.cc: beamOn, get*")],
     TGEO, "random trees of nested, turned, touching volumes and sequences of lines; a state is the shape of the tree", "reference-model monitor (independent intersection of the line with every volume) over a stand-in for the geometry package with injected navigation faults, under ASan+UBSan",
     "Held on the executions explored. ROOT is not installed: a navigator written after its documentation stands in. Pieces below 30 nanometres may be missing, and lines with pieces between 3 and 300 nanometres are not judged; materials with a radiation or interaction length of zero do not count.")
prop("P37", "Point queries describe the volume at the point",
     "For every geometry and every point in it, material name, density, temperature, pressure, radiation and interaction length are those of the innermost volume that contains the point, the local position is the point in the frame of that volume, and the lists of logical and physical volumes name it and all volumes around it, ending with the world; a point outside is refused with an exception, and no answer depends on earlier queries. "
     "A steering file that names a geometry file makes these queries available from the manager, and one that cannot be read is reported.",
     IH, "all geometries, points and orders of queries", "The test program needs a geometry package that is not installed and prints values.",
     ["src/geartgeo/TGeoGearPointProperties.cc", "src/geartgeo/TGeoGeometryInitializer.cc", "src/geartgeo/TGeoMaterialProperties.cc", "src/gearxml/GearXML.cc"], [("lookup", "TGeoGearPointProperties.cc"), ("plug-in", "GearXML.cc: createGearMgr, TGeoMaterialProperties.cc, TGeoGeometryInitializer.cc")],
     TGEO, "random trees of nested, turned, touching volumes and sequences of points; a state is the shape of the tree with the depth reached", "reference-model monitor (independent containment and coordinate transformation) over a stand-in for the geometry package, under ASan+UBSan",
     "Held on the executions explored. ROOT is not installed: a navigator written after its documentation stands in, and the dynamic library is linked in. Points within one nanometre of a surface are not judged.")
prop("P38", "Registered handlers read exactly the detectors of their type",
     "For every sequence of registrations, a program's handler for a type of detector is called for each detector of exactly that type, once, in the order of the file and with its complete element, its results are found in the manager and its errors reach the caller; all other types are read as before, and a type nobody handles is refused. "
     "Registering a handler for a type that has one replaces it, a null handler changes nothing, a handler may be registered again and for several types, and every handler is deleted exactly once: when it is registered for no type any more or when the program ends.",
     IH, "all sequences of registrations and files, including types the library handles itself", "No test registers a handler.",
     ["src/gearxml/XMLHandlerMgr.cc", "src/gearxml/GearXML.cc", "include/gear/gearxml/XMLHandler.h"], [("table", "XMLHandlerMgr.cc: setHandler, getHandler"), ("dispatch", "GearXML.cc: readFile")],
     ["p_handler"], "random sequences of registrations, restorations and files; a state is the sequence of operations", "reference-model monitor (table of handlers, log of calls and destructions) under ASan+UBSan+LSan", "Held on the executions explored. Registrations while another thread reads are not covered; writing does not use registered handlers.")
prop("P39", "A file that is refused leaves nothing behind",
     "For every file or element that is refused while it is read (a mandatory item missing, an unknown type, an impossible number, a material or module ID used twice, damaged text), through the file reader or through a handler without a manager, the caller gets a GEAR exception, all memory taken while reading is freed, the file is unchanged and later files give the same descriptions as if it had never been read. "
     "What a handler returns without a manager belongs to the caller.",
     I, "all files and elements that are refused, and all faults in them", "The tests never read a wrong file, and no test looks at memory.",
     GX + ["src/gearxml/TPCParametersXML.cc", "src/gearxml/TPCModuleXML.cc", "src/gearxml/CalorimeterParametersXML.cc", "src/gearxml/SiPlanesParametersXML.cc", "src/gearxml/SimpleMaterialXML.cc"], [("reading", "GearXML.cc: createGearMgr"), ("handlers", "*XML.cc: fromXML"), ("layouts", "*LayoutXML.cc: fromXML")],
     ["p_xml"], "random documents with one or two faults; a state is the place of the fault with the reason of the refusal",
     "life-cycle monitor: a LeakSanitizer scan after every case, snapshots of a valid file before and after; under ASan+UBSan", "Held on the executions explored. Calorimeters and planar trackers with a name that belongs to no detector are accepted and not judged.")
prop("P40", "Files mean the same in every locale",
     "Whatever locale the program or the thread has chosen (a decimal comma, grouped digits, for C or for C++ streams), writing a manager gives the same text as in the standard locale, and reading a file gives exactly the same values. "
     "Neither reading nor writing, also when it fails, changes the locale of the program.",
     I, "all descriptions and all locales for numbers", "The tests run in the standard locale only.",
     GX + ["src/gearxml/GearParametersXML.cc", "src/gearxml/tinyxml.cc"], [("reading and writing", "GearXML.cc: createXMLFile, readFile"), ("vectors", "GearParametersXML.cc: getXMLForParameters")],
     ["p_xml"], "random managers with random C and C++ locales; a state is the content with the kind of locale",
     "differential monitor (same operation in the standard locale) with a locale made by localedef and random numpunct facets, under ASan+UBSan", "Held on the executions explored. Only numbers: no other category of the locale is changed. Handlers used directly, without GearXML, are not covered.")
