import json
P=[]
def p(id,title,statement,over,qtext,why,files,syms,*rest):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),why_tests_cant=why,anchors=dict(files=files,mechanism=[dict(name=x,where=', '.join(files)) for x in syms])))
C='python/aces/clf/'; L='python/aces/lutFormats/'; T='python/aces/'
NOTEST="test3Process pushes a few fixed colours through one fixed file and asserts a handful of numbers; "
p('C01','Bit-depth scaling is exact and inverse',
 "For every number and every bit depth, normalising and then denormalising with that bit depth returns the number, and so does the opposite order. The 8i, 10i, 12i and 16i depths scale by exactly 255, 1023, 4095 and 65535; 16f, 32f and any other name leave the number unchanged. Every depth is reported as exactly one of integer and floating point, and as integer exactly for those four.",
 ['inputs','configurations'],'all real values x all bit-depth names',
 'Tests never call the scaling helpers alone; they hold for all values, the tests reach a few through fixed nodes.',
 [C+'ProcessNode.py'],['bitDepthToNormalized','normalizedToBitDepth','bitDepthSize','bitDepthIsInteger','bitDepthIsFloatingPoint'])
p('C02','Range applies its affine map and clamp to every value',
 "A Range node normalises each value from its input depth, maps [minIn,maxIn] affinely onto [minOut,maxOut] (bounds normalised by their depth; only-min or only-max is a shift; otherwise no map), clamps to the output bounds that are in use unless the style is other than 'clamp', and scales to its output depth. A set defaultRange supplies 0 and 1 for absent bounds. Every value of the buffer is treated alike and nothing else changes.",
 ['inputs','configurations'],'all values, buffer lengths, 16 presence patterns of the bounds, styles, defaultRange settings and bit-depth pairs',
 NOTEST+'they reach one Range configuration, none of the one-sided ones.',
 [C+'Range.py',C+'ProcessNode.py'],['Range.process'])
p('C03','Matrix computes the affine product on every pixel',
 "A Matrix node of R rows and C columns (C = R, or R+1 with the last column an offset) replaces the first R channels of every pixel by the matrix-vector product plus offset, reading row-major values and only channels of the same pixel. Channels past R are passed through, the output has the input's length, and the caller's values are unchanged.",
 ['inputs','configurations'],'all values and coefficients, 3x3, 3x4, 4x4 and 4x5 shapes, any stride >= R, any number of pixels',
 NOTEST+'one matrix and one pixel.',[C+'Matrix.py'],['Matrix.process','Matrix.setMatrix'])
p('C04','ASC CDL forward and reverse styles follow the CDL formulas',
 "For every pixel with at least three channels, each ASC CDL style (Fwd, Rev, FwdNoClamp, RevNoClamp and their Autodesk spellings) computes slope/offset/power and Rec.709-weighted saturation in the specified order with the specified clamps, defaults for unset parameters, and bit-depth scaling. Without clamping the reverse undoes the forward for every colour for which the formulas are defined, extra channels pass through, and pixels with fewer than three channels are unchanged. ColorCorrection behaves as the forward transform in normalised values.",
 ['inputs','configurations'],'all colours, parameter values and presence patterns, styles, bit depths, strides and pixel counts',
 NOTEST+'only the forward style is sampled at one pixel.',[C+'ASCCDL.py'],['ASCCDL.process','ColorCorrection'])
p('C05','1D LUT lookup is clamped linear interpolation per channel',
 "A 1D LUT without half domain maps each of the first three channels by linear interpolation between the two table entries around value*(entries-1), after bit-depth normalisation or an index map, using that channel's column or the shared one. Below the first and above the last entry the end value is used; NaN and infinite positions pass through; asking for cubic gives the same as linear. Channels past the third pass through.",
 ['inputs','configurations'],'all table sizes, contents, column counts 1 and 3, positions, bit depths, strides and pixel counts',
 NOTEST+'two or three positions of one table; never the ends nor a boundary.',[C+'Array.py',C+'LUT1D.py'],['Array.lookup1D','Array.lookup1DLinear','Array.lookup1DCubic','LUT1D.process'])
p('C06','Half-domain LUT lookup brackets the value by adjacent halfs',
 "With half domain, a finite value is mapped by linear interpolation between the table entries of the two half-floats that bracket it, a value that is a half-float maps exactly to its own entry, and interpolation never leaves the half-floats of the value's sign. NaN, +Inf and -Inf map to the entries 31745, 31744 and 64512. Nearest lookup returns the entry of the value's half-float.",
 ['inputs'],'all 65536 half values and all float32 values between and beyond them, any table',
 NOTEST+'no test uses a half-domain table with a computed expectation.',[C+'Array.py',C+'LUT1D.py'],['Array.lookup1DHalfDomainInterpolated','Array.lookup1DHalfDomainNearest','LUT1D.process'])
p('C07','IndexMap is the piecewise linear map through its points',
 "An index map with strictly increasing inputs returns the output of a point at that point, linear interpolation between neighbouring points inside, and the end outputs outside the range; NaN and infinities pass through. A LUT with one map uses it for all channels, with three maps one per channel, and divides the result by the LUT's entries minus one before lookup. Evaluating through the cache gives, at every half-float, the value of the direct evaluation.",
 ['inputs','configurations'],'all map lengths >= 2, strictly increasing inputs, any outputs, all values',
 NOTEST+'one three-point map.',[C+'IndexMap.py',C+'LUT1D.py',C+'LUT3D.py'],['IndexMap._processRaw','IndexMap.process','LUT1D.process','LUT3D.process'])
p('C08','Trilinear 3D LUT lookup interpolates the enclosing cell',
 "A 3D LUT of any dimensions with trilinear interpolation returns, for every colour clamped to [0,1], the trilinear blend of the eight table entries around it, with the table stored blue fastest, then green, then red, for cubic and non-cubic tables alike. A colour on a grid point returns exactly that entry. Channels past the third pass through.",
 ['inputs','configurations'],'all table dimensions >= 2, contents, colours, bit depths, strides and pixel counts',
 NOTEST+'one small cubic table, no non-cubic one.',[C+'Array.py',C+'LUT3D.py',C+'Common.py'],['Array.lookup3D','Array.lookup3DTrilinear','LUT3D.process','LUT3D.setArray','mix'])
p('C09','Tetrahedral 3D LUT lookup interpolates the right tetrahedron',
 "A 3D LUT of any dimensions with tetrahedral interpolation returns, for every colour clamped to [0,1], the barycentric blend of the four corners of the tetrahedron holding it: the cell's low corner, high corner and the two corners reached by stepping along the axes in decreasing order of the fractions. On faces shared by tetrahedra the answers agree, and on grid points the entry is returned exactly.",
 ['inputs','configurations'],'all table dimensions >= 2, contents and colours, all six orderings and their ties',
 NOTEST+'no test reaches all six tetrahedra, nor the ties.',[C+'Array.py',C+'LUT3D.py'],['Array.lookup3DTetrahedral','LUT3D.process'])
p('C10','Gamma styles follow their curves and reverse undoes forward',
 "For every pixel with at least three channels, the Gamma styles basicFwd, basicRev, moncurveFwd and moncurveRev apply the documented curve with each channel's gamma and offset (the last applicable setting wins, integers and floats alike) between bit-depth scalings. For non-negative values the reverse style undoes the forward one, with the linear and power segments switching at the matching break points. Channels past the third pass through.",
 ['inputs','configurations'],'all values, gammas, offsets, per-channel settings, bit depths, strides and pixel counts',
 NOTEST+'a single moncurve colour is asserted.',[C+'ExtensionGamma.py'],['Gamma.process','Gamma.setGamma'])
p('C11','Log styles follow their formulas and invert one another',
 "For every pixel with at least three channels, the Log styles log10, log2, antiLog10, antiLog2, linToLog and logToLin apply the documented formula with each channel's parameters and the documented floor for non-positive inputs, between bit-depth scalings. antiLog undoes log on positive values and logToLin undoes linToLog wherever the floor is not reached. Channels past the third pass through.",
 ['inputs','configurations'],'all values, parameters, per-channel settings, bit depths, strides and pixel counts',
 NOTEST+'one colour per style at most.',[C+'ExtensionLog.py'],['Log.process','Log.setLogParams'])
p('C12','ExposureContrast styles follow their formulas',
 "For every pixel with at least three channels, the ExposureContrast styles linear, video and log apply the documented exposure, contrast and pivot formula to the first three channels between bit-depth scalings. Channels past the third are those of the same pixel, unchanged.",
 ['inputs','configurations'],'all values, exposures, contrasts, positive pivots, bit depths, strides and pixel counts',
 NOTEST+'only the linear style at one pixel.',[C+'ExtensionExposureContrast.py'],['ExposureContrast.process'])
p('C13','Pixels are processed independently of their neighbours',
 "Processing a buffer of several pixels with a stride gives, pixel by pixel, exactly what processing each pixel alone gives, for every node type and for process lists. The output has as many values as the input, and channels past those a node works on come out as they went in.",
 ['inputs','configurations'],'all nodes, buffers of any number of pixels, all strides',
 'Tests process single pixels only; multi-pixel buffers with a stride are never compared.',
 [C+'ProcessList.py',C+'Matrix.py',C+'LUT1D.py',C+'LUT3D.py',C+'ASCCDL.py',C+'ExtensionGamma.py',C+'ExtensionLog.py',C+'ExtensionExposureContrast.py',C+'Range.py'],['process'])
p('C14','A process list is the composition of its nodes in order',
 "Processing values through a list applies its nodes one after another in the order they were added, each to the result of the one before, starting from the values as 32-bit floats; an empty list returns the values. The caller's values are never modified. Nodes are found by name as the first one with that name, and iteration, indexing and length agree with the order of addition.",
 ['inputs','histories'],'all lists of nodes, all inputs (lists and arrays), with and without stride',
 NOTEST+'a fixed list, and aliasing of the input is never looked at.',[C+'ProcessList.py'],['ProcessList.process','ProcessList.addProcess','ProcessList.getProcess'])
p('C15','Bypassed nodes are skipped and bit depths adapted',
 "A node marked as bypassed leaves the values alone, except that between two neighbours with different facing bit depths the values are rescaled unclamped from the one depth to the other; a node whose bypass is false is processed. When the Autodesk feature set is off, bypass marks are ignored and every node is processed. Lists and groups behave alike.",
 ['inputs','configurations'],'all positions of bypassed nodes, bypass values, bit-depth combinations and feature sets',
 'No test bypasses a node.',[C+'ProcessList.py',C+'ExtensionGroup.py'],['ProcessList.process','Group.process'])
p('C16','Groups and references stand for the nodes they hold',
 "Processing through a group equals processing through its children in order, and processing through a reference equals processing through the list in the referenced file; a reference whose file is missing leaves values unchanged. Written self-contained, a list replaces every reference, at any depth, by the referenced nodes; otherwise references are written as references.",
 ['inputs','histories'],'all groups of nodes, nesting, inputs and strides',
 'Tests hold one reference to a missing path and one group of fixed nodes.',[C+'ExtensionGroup.py',C+'ExtensionReference.py',C+'ProcessList.py'],['Group.process','Reference.process','Reference.write','Group.write','resolvePath'])
p('C17','Node parameters survive writing and reading',
 "Writing a list to XML and reading it back yields the same nodes in the same order with the same attributes, metadata (descriptions of the list and of its nodes, input and output descriptors and info of the list) and parameters, for every node type and every parameter that is set, including per-channel ones, index maps, dynamic parameters and bypass. Numbers are recovered exactly for node parameters and element tags are recognised with a namespace, and with dashes or underscores in them.",
 ['inputs','configurations'],'all node types, parameter values and presence patterns; text attributes other than the words True and False, index-map outputs that are whole numbers',
 'test1Create and test2Read check one fixed document, and few of the fields.',[C+'ProcessNode.py',C+'ProcessList.py',C+'Range.py',C+'ASCCDL.py',C+'ExtensionGamma.py',C+'ExtensionLog.py',C+'ExtensionExposureContrast.py',C+'IndexMap.py',C+'Comment.py',C+'Info.py'],['write','read','readChild','getElementType'])
p('C18','Array values survive serialisation in every encoding',
 "Writing an array and reading it back keeps its dimensions, the number of values and their order. With the 16, 32 and 64 bit integer and hex encodings (and raw halfs) every value of that precision is recovered bit for bit; as decimal text every value is recovered to within 1e-9 plus 32-bit rounding. Bit encodings are refused with an error when the Duiker Research feature set is off.",
 ['inputs','configurations'],'all values, lengths, shapes (1D, 2D, 3D tables and matrices) and the seven encodings',
 'Tests write arrays and read them, comparing a few decimal values of one array.',[C+'Array.py',C+'Common.py'],['Array.write','Array.read','Array.setFloatEncoding'])
p('C19','Files read back as the list that was written',
 "A list written to a file, plain or gzipped, and read again processes every input to the same result as the original (to the printed precision of its tables), and plain and gzipped files of the same list read alike. Gzipped writing is refused with an error when the Duiker Research feature set is off. An error raised while reading a gzipped file is the same as for the plain file.",
 ['inputs','configurations'],'all lists of serialisable nodes, plain and gzipped',
 'test4 and test5 write and read one fixed list and assert only that it works.',[C+'ProcessList.py'],['ProcessList.writeFile','ProcessList.readFile','ProcessList.xmlPrettify'])
p('C20','Feature sets gate extensions and strict reading refuses them',
 "Reading strictly raises an error for an unknown element, for an Autodesk node (ExposureContrast, Gamma, Log, Reference) or dynamic parameter when that set is off, and for a Group when the Duiker Research set is off, also inside groups; reading leniently raises no such error and keeps the known nodes in order. Autodesk CDL style names raise an error when processed with that set off. With a set on, none of its elements is refused.",
 ['configurations','inputs'],'all feature set values, strictness, node types, positions and nesting',
 'Tests run with all sets on; no test reads strictly.',[C+'ProcessList.py',C+'ProcessNode.py',C+'ExtensionGroup.py',C+'ASCCDL.py',C+'Common.py'],['ProcessList.read','ProcessNode.read','Group.readChild','setFeatureCompatibility'])
p('C21','Bit reinterpretation helpers are mutually inverse',
 "Converting a half, single or double to its unsigned integer or hexadecimal form and back gives the same bits, for every value including signed zeros, subnormals and infinities, and every integer (or hex string) of that width comes back unchanged unless it encodes a NaN. The integer and hex forms are the IEEE-754 bit patterns, big-endian in hex.",
 ['inputs'],'all 2^16 halfs, and all 2^32 and 2^64 patterns that are not NaN',
 'No test calls the helpers; they are exercised for a few values through array writing.',[C+'Common.py'],['uint16ToHalf','halfToUInt16','uint32ToFloat32','float32ToUInt32','uint64ToDouble','doubleToUInt64','halfToHex','hexToHalf','float32ToHex','hexToFloat32','doubleToHex','hexToDouble'])
p('C22','Sampled LUT builders tabulate the given function',
 "A 1D LUT built from a function holds, in each channel, f at equally spaced points from 0 to 1; the half-domain builder holds f of the half with that bit pattern at every index; the 3D builder holds f at the grid points with blue fastest, for any resolution per axis. Processing a grid point through a built LUT returns the function's value there, and building or setting tables never changes the caller's lists.",
 ['inputs','configurations'],'all functions, resolutions >= 2 (per axis), channel counts 1 and 3',
 'Tests build one of each with a cubic resolution and look at no entry.',[C+'LUT1D.py',C+'LUT3D.py'],['simpleSampledLUT','simpleSampledLUTHalfDomain','simple3DLUT','LUT3D.setArray','LUT1D.setArray'])
p('C23','Sampling a process list tabulates its output on the grid',
 "Sampling a process list into a 1D table stores, at each index, the list's output for grey at that equally spaced position of the input range; sampling into a 3D table stores at [r][g][b] the output for that colour, for any resolution per axis. With shapers, the 3D table is sampled through the inverse input shaper and stored through the output shaper, the input table holds the input shaper and the output table the inverse output shaper.",
 ['inputs','configurations'],'all process lists, resolutions >= 2 per axis, ranges and shaper settings',
 'The LUT format tests need files that are not there and never run.',[L+'Sampling.py'],['sample1D','sample3D','sample1D3D1D','createShaper'])
p('C24','Inverse 1D LUTs invert the table',
 "For a table strictly increasing in every channel, each way of inverting it (resampled, half-domain, index map) yields nodes that map a table output back to the input that produced it: the index-map inverse exactly on the whole range of the table, the half-domain one exactly at half-float outputs, the resampled one at its own sample points. Inputs keep their channel and the result is scaled to the table's input range.",
 ['inputs','configurations'],'all table lengths >= 2, strictly increasing contents, 1 or 3 channels, input ranges',
 'No test runs an inverse.',[L+'Sampling.py'],['generateLUT1DInverseResampled','generateLUT1DInverseHalfDomain','generateLUT1DInverseIndexMap'])
p('C25','LUT text files hold the table and read back as it',
 "Writing samples as spi1d, spi3d, csp (1D, 3D, with prelut), ctl or clf produces a file in that format's layout that holds every sample at its own position to the printed precision, for any resolution per axis. Reading a spi or csp file yields nodes that map the file's input range to the file's table with every entry at its own grid position, whatever the blank lines and metadata between the sections.",
 ['inputs','configurations'],'all resolutions per axis, contents, input ranges and preluts',
 'The LUT format tests need files that are not there and never run.',[L+'LutSPI.py',L+'LutCSP.py',L+'LutCTL.py',L+'LutCLF.py'],['readSPI1D','readSPI3D','writeSPI1D','writeSPI3D','readCSP','writeCSP1D','writeCSP3D','writeCSP1D3D','generateCLFPrelut','writeCTL1D','writeCTL3D','writeCLF1D3D1D'])
p('C26','LUT formats are chosen by extension and capability',
 "Reading or writing a LUT file uses a registered format that declares the file's extension, in any letter case, and the needed capability for that very extension, and reports failure, touching no file, when there is none. The capabilities reported for an extension are exactly those declared for it. A successful read gives the format's nodes, in order, wrapped in a list when asked.",
 ['inputs','configurations'],'all extensions, spellings, capabilities and registered formats',
 'The LUT format tests need files that are not there and never run.',[L+'Registry.py',L+'LutFormat.py'],['Registry.read','Registry.write','LutFormat.capabilities','LutFormat.isCapable'])
p('C27','Image filtering transforms every pixel of the image',
 "Filtering an image applies the process list to every pixel of every row exactly once, at its own position, single- or multi-threaded, between conversions from the image's bit depth to the list's and from the list's to the output's. Integer outputs are the nearest code value, clamped to the depth's range, placed in the high bits for 10 and 12 bit images.",
 ['inputs','configurations','schedules'],'all image sizes, channel counts, contents, bit-depth combinations, thread counts',
 'The image module needs OpenImageIO and has no test.',[T+'filterImageWithCLF.py'],['filterImageWithCLF','filterRow_stride','filterRow_pixel','filterRow_parallel','writePixelArray','readPixelArray'])
p('C28','OCIO matrix and log transforms convert to equal nodes',
 "Converting an OCIO matrix transform gives a matrix node that maps every colour as the OCIO matrix and offset do, as a 3x3 or 3x4 node exactly when alpha is neither read nor changed; a log transform of base 2 or 10 gives the log or antilog node of that base and direction; a group converts to its members in order. Unsupported directions and bases give no node.",
 ['inputs','configurations'],'all 4x4 matrices and offsets, directions, bases and nestings of groups',
 'The OCIO module needs PyOpenColorIO and has no test.',[T+'convertOCIOtoCLF.py'],['convertMatrixToProcessNode','convertLogToProcessNode','convertTransformsToProcessNodes'])
p('C29','Command-line tools do what their options ask',
 "convertCLFtoLUT writes the list read from its CLF file in the chosen data format (1D by default), sampled with the resolution, input range and shapers given on the command line, or the documented defaults, each option taking effect on its own; writing a list in a format hands the format's writer the samples of that list with the grid and range they were taken on. convertLUTtoCLF writes the list read from the LUT with the inverse options given. convertOCIOtoCLF writes the nodes of the source colour spaces' transforms to the reference followed by those of the destinations' transforms from it, in the order given, each node named after its colour space and position and described. filterImageWithCLF filters the input image into the output through the list with the depth, threads (between 1 and the number of processors), compression and quality given. Nothing is written when a path is missing or there is nothing to write.",
 ['inputs','configurations'],'all combinations of options with their documented number of values, one data format at a time; --lutResolution3d and --lutResolution1d3d1d are not given together',
 'No test runs a command line.',[T+'convertCLFtoLUT.py',T+'convertLUTtoCLF.py',T+'convertOCIOtoCLF.py',T+'filterImageWithCLF.py',L+'LutFormat.py'],['convertCLFtoLUT','main','convertOCIOtoCLF','LutFormat.write'])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x)+'\n' for x in P))
