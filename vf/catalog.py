"""The list of properties: `python3 -m vf.catalog` writes properties.jsonl and MANIFEST.json from it."""
import json, os
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

P = []
def prop(id, title, statement, over, text, why, files, mech, spec, note, observe=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech,
                  spec=spec, note=note, observe=observe or []))

prop("C01", "Every encoding of a RIB stream denotes the same requests",
 "A RIB stream delivers the same sequence of requests with the same arguments however it is encoded: ASCII or binary tokens of any admissible width, encoded requests and strings, any white space, comments and line ends, compressed or not. Where a token falls relative to the reader's internal input blocks never changes what is delivered.",
 ["inputs"], "every sequence of requests, every choice of token encoding, white space and padding, every alignment with the input buffer",
 "The lexer tests feed a few hand written strings shorter than one input buffer; the encodings multiply per token.",
 ["libs/riutil/riblexer.cpp", "libs/riutil/ribinputbuffer.cpp", "libs/riutil/ribparser.cpp", "libs/riutil/ribtokenizer.cpp"],
 [("tokenizer", "libs/riutil/riblexer.cpp"), ("request dispatch", "libs/riutil/ribparser.cpp"), ("block buffer", "libs/riutil/ribinputbuffer.cpp")],
 "RibCodec, RiRequests", "TLC enumerates requests x encodings; every generated byte stream is parsed by the real reader and the delivered requests compared with the model's abstract sequence.")
prop("C02", "A malformed request is reported once, where it is, and hurts nothing else",
 "For every RIB stream containing malformed requests, the reader reports each malformed request with one diagnostic naming the line it is on, delivers none of it, resumes at the next request, and delivers every other request unchanged.",
 ["inputs", "fault_sequences"], "every stream mixing well formed requests with requests damaged at any token by missing, extra, ill typed or unlexable tokens, with any line ends",
 "Tests check a handful of single errors in isolation; resynchronisation depends on the token following the error and on look-ahead state.",
 ["libs/riutil/ribparser.cpp", "libs/riutil/riblexer.cpp"],
 [("error recovery", "libs/riutil/ribparser.cpp parseNextRequest"), ("discardUntilRequest / line counting", "libs/riutil/riblexer.cpp")],
 "RibErrors", "TLC generates token streams with injected faults and computes the expected deliveries and diagnostics; replayed into the real reader.")
prop("C03", "What the RIB writer writes, the reader reads back unchanged",
 "Writing any sequence of requests with the RIB writer, in ASCII or binary, compressed or not, and reading the result yields the same requests with the same arguments: integers and strings exactly, floating point values to the precision of the format. Binary and ASCII output of the same requests denote the same stream.",
 ["inputs", "configurations"], "every sequence of requests and parameter lists; every writer configuration",
 "The writer tests compare a few requests with golden text; they never read it back and do not cover extreme values or all requests.",
 ["libs/riutil/ribwriter.cpp", "libs/riutil/riblexer.cpp"],
 [("ASCII and binary formatters", "libs/riutil/ribwriter.cpp")],
 "RibCodec, RiRequests", "Model request sequences are written by the real writer and read back by the real reader; both the text and the result are compared with the model.")
prop("C04", "Reading archive files: expanded in place, streams isolated from each other",
 "Reading an archive file executes exactly its requests at the point of the call, to any depth of nesting, and then resumes the enclosing stream exactly where it was. An error, an encoded string or request definition, or a truncated construct in one stream never leaks into another.",
 ["inputs", "histories"], "every tree of archive files with conditionals, inline archives, encoded tables, compression and errors at any position",
 "No test reads a nested archive file; the reader's buffers and tables are shared between levels.",
 ["libs/riutil/ribparser.cpp", "libs/riutil/riblexer.cpp", "libs/riutil/renderutil_filter.cpp"],
 [("input stack", "libs/riutil/riblexer.cpp pushInput/popInput"), ("archive expansion", "libs/riutil/renderutil_filter.cpp ReadArchive")],
 "RiStream", "TLC generates sets of files and the expected flattened execution; the real reader runs the same files.")
prop("C05", "Illegal requests are rejected alone; legal ones always pass",
 "The interface validator passes on every request which is legal in the current block structure, with argument values in range and parameter arrays of the length its class requires; it reports and drops every other one. A dropped request changes nothing: the block structure and graphics state seen by later requests are those of the legal requests alone.",
 ["inputs", "histories"], "every sequence of block begin/end and other requests, values at and around every range limit, all parameter classes and primitives, strict and relaxed scoping",
 "Validator tests exercise a few single requests; the legality of a request depends on the whole history of open blocks and accepted ends.",
 ["libs/riutil/ricxx_validate.cpp", "libs/riutil/ri.xml"],
 [("scope stack", "libs/riutil/ricxx_validate.cpp pushScope/popScope/checkScope"), ("array length checks", "libs/riutil/ricxx_validate.cpp checkParamListArraySizes")],
 "RiValidate", "Exhaustive for block sequences up to the bound plus random behaviours; the accept/reject decision of each request is compared with the specification.")
prop("C06", "Exactly one branch of every conditional is executed",
 "For every well nested arrangement of IfBegin/ElseIf/Else/IfEnd, the requests executed are exactly those in, for each conditional reached, the first branch whose condition is true. Conditionals recorded in archives are decided when they are replayed, and stray conditional requests change nothing.",
 ["programs", "inputs"], "every nesting of conditionals, with each other and with inline archives and objects, and every assignment of truth values",
 "Only unnested conditionals appear in tests; the state needed grows with nesting depth.",
 ["libs/riutil/renderutil_filter.cpp", "libs/core/api/condition.cpp"],
 [("conditional state stack", "libs/riutil/renderutil_filter.cpp IfBegin..IfEnd")],
 "RiStream", "Exhaustive for short programs plus random long ones, each executed by the real filter.")
prop("C07", "Inline archives and object instances replay exactly what was recorded",
 "Each use of an inline archive or object replays exactly the requests recorded between its begin and end, with the same arguments and in order, whatever is recorded or replayed inside it. Redefining a name affects later uses only, and unknown names are reported and do nothing.",
 ["programs", "histories"], "every program of definitions, nested definitions, redefinitions and uses, including uses during replay, with every request and argument recorded",
 "Tests record one archive of a few requests; recording has to deep-copy every argument type of every request.",
 ["libs/riutil/renderutil_filter.cpp", "libs/riutil/ricxx_cache.h"],
 [("request recording", "libs/riutil/ricxx_cache.h"), ("name tables", "libs/riutil/renderutil_filter.cpp")],
 "RiStream, RibCodec", "Model programs are executed by the real filter; recorded requests of every kind are compared argument by argument with the model.")
prop("C08", "Filters pass exactly the requests they should, unchanged",
 "For every request stream: frame selection removes the frames whose numbers are not selected and nothing else; the ignore-archives filter removes archive reads and nothing else; a tee delivers the complete stream to both outputs, in order. Filters never alter arguments, and compose.",
 ["inputs", "configurations"], "every stream, every frame selection string, every chain of these filters",
 "There are no tests of the filters beyond one frame range string.",
 ["libs/riutil/framedrop_filter.cpp", "libs/riutil/ricxx_filter.cpp", "libs/riutil/tee_filter.cpp"],
 [("frame range test", "libs/riutil/framedrop_filter.cpp"), ("duplication", "libs/riutil/tee_filter.cpp")],
 "RiFilters, RibCodec", "Filter chains and streams generated by TLC, run through the real filters.")

prop("C09", "The C interface writes exactly the calls made, context by context",
 "Every accepted call of the C interface (in its V and its variable argument form) becomes exactly one request, with exactly its values, in the stream of the context that is current: arrays have the lengths implied by the other arguments, by the Basis in force and by the declarations of that context, and never more is read. Handles are accepted only in the context that issued them and until the Frame or World block they were issued in ends. A call that is illegal where it is made, has illegal arguments, an undeclared parameter or a dead handle is reported, writes nothing and changes nothing for later calls.",
 ["inputs", "histories"], "every program: any calls, any interleaving of several contexts, any nesting of blocks, legal or not",
 "One test writes four requests to a string; nothing tests array lengths, handles, contexts or rejected calls.",
 ["libs/riutil/ri2ricxx.cpp", "libs/ri2rib/ri2rib.cpp", "include/aqsis/riutil/ricxxutil.h"],
 [("conversion of calls, handles, saved Basis", "libs/riutil/ri2ricxx.cpp"), ("contexts, output format", "libs/ri2rib/ri2rib.cpp")],
 "RiApi, RibCodec", "Programs generated by TLC are run against libaqsis_ri2rib by a driver that makes the calls with padded arrays; what each context wrote is read back and compared request by request.")

prop("H01", "Hidden surfaces: each pixel shows what is nearest, composited correctly",
 "At every sample the picture is the front-to-back composition of exactly the surfaces covering it, in order of depth: opaque surfaces hide what is behind, transparent ones add their colour and attenuate what is behind by their opacity, matte ones hold out what is behind. Neither the order in which primitives are given nor how they are split, diced, shaded or bucketed matters, and colour, alpha and opacity of the pixel are the filtered average of its samples.",
 ["inputs"], "every arrangement of overlapping opaque, transparent and matte surfaces, every order of submission, primitive type, shading rate, grid and bucket size and sample count",
 "No unit test renders anything: occlusion culling, sample hits and compositing are only exercised by whole pictures.",
 ["libs/core/imagepixel.cpp", "libs/core/bucketprocessor.cpp", "libs/core/micropolygon.cpp", "libs/core/occlusion.cpp"],
 [("sample compositing", "libs/core/imagepixel.cpp Combine"), ("occlusion culling", "libs/core/occlusion.cpp"), ("sampling", "libs/core/bucketprocessor.cpp RenderMicroPoly")],
 "HiddenSurface", "Scenes and their exact pictures in rational arithmetic come from TLC; the real renderer's pixels are compared with them.")
prop("H02", "Depth output follows the depth filter and the z threshold",
 "The depth delivered for a pixel is that given by the requested depth filter (min, max, average, midpoint) over the samples of the pixel, where only surfaces at least as opaque as the z threshold count. A sample with no such surface counts as infinitely far, and displaying depth with colour changes neither.",
 ["inputs", "configurations"], "every scene as for H01, every depth filter, threshold and display mode including depth",
 "No unit test renders depth; errors show up only as wrong shadows.",
 ["libs/core/imagepixel.cpp", "libs/core/bucketprocessor.cpp"],
 [("depth filter", "libs/core/imagepixel.cpp Combine")],
 "HiddenSurface", "Depth images computed by the specification are compared with those the real renderer sends to a display.")
prop("H04", "Every pixel is the filtered mean of the samples around it",
 "Each pixel is the mean of all samples within the support of the pixel filter around its centre, weighted by the filter (widths are rounded up to whole pixels), including samples beyond the edges of the image, the crop window and its bucket; exposure then applies gain and gamma to the colour. Sizes of buckets and grids, crop windows and jitter within the cells of the samples never change a pixel.",
 ["inputs"], "every picture, filter, filter width, number of samples, bucket size and crop window",
 "The samples of a filter come from several buckets through caches that depend on all sizes at once; unit tests evaluate no image.",
 ["libs/core/bucketprocessor.cpp", "libs/core/imagebuffer.cpp", "libs/core/filters.cpp", "libs/core/optioncache.cpp"],
 [("filtering", "libs/core/bucketprocessor.cpp FilterBucket"), ("overlap caches", "libs/core/bucketprocessor.cpp buildCacheSegment"), ("filters", "libs/core/filters.cpp")],
 "Reconstruct", "TLC generates pictures of sample cells with, for every pixel, the sum of the samples at each distance from its centre; the renderer's pixels are compared with these sums weighted by the filter function.")

prop("D01", "Displays get every pixel of the image once, quantised as asked",
 "Every image rendered opens each display requested at that point with the channels, types, size and parameters asked for, sends it every pixel of the crop window exactly once (whole scanlines in order if it wants them), and closes it. Each value is zero + v*(one - zero), dithered by at most the dither amplitude, rounded and clamped to [min, max] (unchanged if one is 0), in the channel order and type the driver chose; options set in a frame end with it, and a display that cannot be loaded affects no other.",
 ["histories", "inputs", "configurations"], "every program of format, crop, quantisation, bucket size and display requests over several frames and worlds",
 "Display output depends on the whole history of options and frames; no test exercises the display manager.",
 ["libs/core/ddmanager/ddmanager.cpp", "libs/core/renderer.cpp", "libs/core/api/ri.cpp"],
 [("display requests", "libs/core/ddmanager/ddmanager.cpp"), ("frames and options", "libs/core/renderer.cpp")],
 "DisplayDelivery, DisplayProtocol, DisplayTrace", "TLC generates programs with the expected sessions; a capturing driver records the real calls, whose values are compared and whose order is validated as a behaviour of the protocol specification.")

prop("D02", "Image files have the pixels of the crop window, in the type asked for",
 "A TIFF, OpenEXR or BMP file written by the display drivers has exactly the pixels of the crop window, each at its place with the channels of the display request, under every compression and pixel type, and says where in the whole image they lie. TIFF samples have the type the quantisation asks for (8, 16 or 32 bit integers or floats); EXR samples are the floats to half or full precision, infinite depth included. Each file shows the last world rendered to it, whatever other displays there are.",
 ["histories", "inputs", "configurations"], "every program of format, crop, quantisation, bucket size and display requests over several frames and worlds, each compression and pixel type",
 "The file drivers are plugins that no test loads; type, channel order, crop and compression combine.",
 ["tools/displays/file", "tools/displays/exr", "tools/displays/sdcBMP", "tools/displays/dspyutil", "libs/core/ddmanager/ddmanager.cpp"],
 [("TIFF", "tools/displays/file/display.cpp"), ("EXR", "tools/displays/exr/d_exr.cpp"), ("BMP", "tools/displays/sdcBMP/d_sdcBMP.cpp"), ("formats", "tools/displays/dspyutil/dspyhlpr.c")],
 "DisplayDelivery", "TLC generates programs with the pixels of each display; the files the real drivers write are decoded independently and compared sample by sample.")

prop("T01", "A texture file is the image it is made of, at every level",
 "MakeTexture writes a file whose level 0 is exactly the image (TIFF or PNG of any layout, in its own type and channels), followed by levels of half the size, rounded up, down to one texel, and records the wrap modes. Each texel of a level is the mean of the texels around its position in the level before, weighted by the filter, where the image goes on beyond its edges as the wrap modes say (periodic, clamp, black), in every combination of the two directions.",
 ["inputs"], "every image, size, number of channels, type, file layout, filter, filter width and wrap modes",
 "The readers, the tiled writer and the wrapped filtering have many cases by size and layout; unit tests cover buffers of a few sizes in memory and no files.",
 ["libs/tex/maketexture/maketexture.cpp", "libs/tex/maketexture/downsample.h", "libs/tex/io", "include/aqsis/tex/filtering/filtertexture.h"],
 [("levels", "libs/tex/maketexture/downsample.h"), ("wrap modes", "include/aqsis/tex/filtering/filtertexture.h filterWrappedBuffer"), ("files", "libs/tex/io/tiffoutputfile.cpp, tiffinputfile.cpp, pnginputfile.cpp")],
 "Textures", "TLC generates images with all levels for the box filter and the sums at each distance for all filters; the files the renderer writes are decoded independently and compared texel by texel.")

prop("T02", "A texture lookup is a mean of the texels around the place asked for",
 "A call of texture() in a shader, with s and t of the surface, a point or four corners, and with any width, blur and lerp, gives a mean of the texels over about the area asked for and not beyond: the colour of a region of one colour around it, the mean of the regions that meet there, the mean of the whole image for an area many periods wide. Beyond its edges the image goes on as the wrap mode of each direction says, independently of the other; the channels are those from the given one on, of a float or a colour, with the fill value beyond the last; textureinfo gives the size and the number of channels of the image.",
 ["inputs"], "every image, size, type, wrap mode, place, area, blur and channel",
 "The level, the tiles and the part of the plane a lookup touches depend on place, area and image; there are no tests of lookups through a texture file.",
 ["include/aqsis/tex/filtering", "libs/tex/filtering", "libs/core/texturing", "libs/shadervm/shaderexecenv/shadeops_tmap.cpp"],
 [("sample regions", "include/aqsis/tex/filtering/samplequad.h"), ("levels and filters", "libs/tex/filtering/mipmap.h, ewafilter.h"), ("wrap modes", "include/aqsis/tex/filtering/filtertexture.h"), ("shadeops", "libs/shadervm/shaderexecenv/shadeops_tmap.cpp")],
 "TextureLookup", "TLC generates images of blocks of one colour and lookups with their exact values; a shader calls texture() in the renderer and prints what it gets.")

prop("T03", "An environment lookup gives the texels seen in the direction asked for",
 "environment() in a shader, with a direction or four directions, gives a mean of the texels the map has around that direction and not beyond: for a cube map those of the face the direction meets and the place where it meets it, whatever the field of view of the faces and across the seams between them, for a latitude-longitude map those at its longitude and latitude, round the closed ends and at the poles. The length of the direction does not matter; channels, fill and blur are as for textures, and textureinfo says that it is an environment.",
 ["inputs"], "every direction, map, field of view, blur and channel",
 "Orientation of six faces, their margins for wide fields of view and the seams depend on the direction; there are no tests of them.",
 ["include/aqsis/tex/filtering", "libs/tex/filtering", "libs/tex/maketexture", "libs/shadervm/shaderexecenv/shadeops_tmap.cpp"],
 [("cube", "libs/tex/filtering/cubeenvironmentsampler.h"), ("latlong", "libs/tex/filtering/latlongenvironmentsampler.h"), ("making", "libs/tex/maketexture/maketexture.cpp"), ("shadeops", "libs/shadervm/shaderexecenv/shadeops_tmap.cpp")],
 "Environment", "TLC generates maps of blocks of one colour and directions with their exact values; a shader calls environment() in the renderer and prints what it gets.")

prop("T04", "A point is in shadow exactly if the light's depth map has something before it",
 "A depth map rendered from a light, by the zfile display and MakeShadow or by the shadow display, keeps for each pixel the depth of what the light sees first there and the view it was made from. shadow() gives 1 for points behind that by more than the upper bias, 0 for points before it, up to the lower bias behind it or outside the map, and rises from 0 to 1 between the biases, for points of any later camera and frame; the size of the map, its tiles and its aspect make no difference.",
 ["inputs", "histories"], "every scene of occluders, light and camera view, map size, bias and point",
 "Depths, matrices, tiles and percentage closer sampling only work together; no test makes or reads a shadow map.",
 ["tools/displays/file", "libs/tex", "libs/core/ddmanager/ddmanager.cpp", "libs/shadervm/shaderexecenv/shadeops_tmap.cpp"],
 [("depth display", "tools/displays/file/display.cpp"), ("making", "libs/tex/maketexture/maketexture.cpp"), ("sampling", "libs/tex/filtering/shadowsampler.h"), ("filter", "libs/tex/filtering/depthapprox.h")],
 "ShadowMap", "TLC generates occluders, views and points with their exact answers; the renderer makes the map, and a shader calls shadow() under other cameras and prints what it gets.")

prop("P01", "A procedural or archive is rendered as its contents in its place",
 "What a procedural generates, by DelayedReadArchive, RunProgram or DynamicLoad, is rendered with the attributes and transformation in force where the procedural was requested, although it runs later, as if its contents stood in an attribute block there; nothing it sets outlives it. The same goes for procedurals in procedurals and in objects, and for ReadArchive of files (compressed or not) and of inline archives, which leave what they set. Nothing within the bound of a procedural is lost.",
 ["histories"], "every program of state requests and blocks with procedurals and archives anywhere in it, nested",
 "A procedural runs in the middle of rendering with the graphics state of its request; no test runs one.",
 ["libs/core/geometry/procedural.cpp", "libs/core/api/ri.cpp", "libs/riutil/renderutil_filter.cpp", "libs/riutil/ricxx_cache.h", "libs/util/popen.cpp"],
 [("deferred state", "libs/core/geometry/procedural.cpp"), ("archives", "libs/core/api/ri.cpp"), ("inline archives and objects", "libs/riutil/renderutil_filter.cpp"), ("programs", "libs/util/popen.cpp")],
 "GraphicsState", "Programs with procedural blocks and the state each visible primitive must have come from TLC; their contents are put into files, programs and shared objects; shaders report the real state per pixel.")

prop("G01", "Graphics state: every primitive is rendered under the state in force for it",
 "A primitive is rendered with exactly the colour, opacity, user attributes, surface shader (with its parameters and shader space) and transformation in force when it was given, wherever it lies in the nesting of frame, world, attribute, transform and object blocks: AttributeEnd restores everything set since its AttributeBegin, TransformEnd the transformation only, WorldEnd and FrameEnd everything. An object instance is its primitives under the attributes and transformation in force at the instance.",
 ["histories"], "every program of attribute, transformation, block, object and primitive requests, over several frames and worlds",
 "State is shared copy-on-write between blocks and primitives; no unit test runs a request program through the renderer.",
 ["libs/core/api/ri.cpp", "libs/core/attributes.cpp", "libs/core/transform.cpp", "libs/core/api/graphicsstate.cpp", "libs/core/renderer.cpp"],
 [("attribute stack", "libs/core/api/graphicsstate.cpp"), ("copy on write", "libs/core/attributes.cpp"), ("transforms", "libs/core/transform.cpp")],
 "GraphicsState", "Programs and the state each visible primitive must have come from TLC; shaders report the real state per pixel.")
prop("G02", "Coordinate systems, named spaces, sidedness and orientation",
 "In shaders, points, vectors and normals convert between camera, world, object, shader, raster, NDC and user-named coordinate systems by exactly the transformations in force where those were established (normals by the inverse transpose), CoordSysTransform re-establishes a named system, and scoping follows the blocks. A one-sided primitive is seen exactly from its outside as Orientation and the handedness of its transformations define it, and its normal points accordingly.",
 ["histories"], "every program of transformation, coordinate system, orientation and sidedness requests in nested blocks",
 "Only matrix arithmetic is unit tested, not the spaces a renderer derives from a request history.",
 ["libs/core/renderer.cpp", "libs/core/transform.cpp", "libs/core/api/ri.cpp", "libs/shadervm/shaderexecenv"],
 [("named spaces", "libs/core/renderer.cpp matSpaceToSpace"), ("handedness", "libs/core/transform.cpp")],
 "GraphicsState", "As G01, with shaders reporting the same point in every space and the normal seen.")

prop("G03", "Primitives are the surfaces their requests define, with their variables",
 "Every geometric primitive (patches and patch meshes in any basis, quadrics, curves, points, polygons with holes and polygon meshes) is shaded at exactly the points of the surface its request defines as a function of u and v, covers exactly that surface, and has its normal on its outside. Primitive variables of every class and type, texture coordinates included, have at each of these points the value the interface defines from the values given, whatever splitting, dicing, transformation or instancing happens in between.",
 ["inputs"], "every valid specification of every kind of primitive, and every point of it",
 "Correctness depends on how splitting, dicing and variable classes combine for each kind of primitive; unit tests build no primitive.",
 ["libs/core/geometry/", "libs/core/parameters.h", "libs/core/api/ri.cpp"],
 [("patches", "libs/core/geometry/patch.cpp"), ("quadrics", "libs/core/geometry/quadrics.cpp"), ("polygons", "libs/core/geometry/polygon.cpp"), ("curves", "libs/core/geometry/curves.cpp"), ("variables", "libs/core/parameters.h")],
 "Primitives", "TLC generates requests with the exact points and variable values on a lattice of parameters (invariants: the pieces partition the parameter domain and adjoining pieces meet); a shader reports every shaded point of the renderer, compared with them.")

prop("S01", "Shading control flow runs each point as if it were alone",
 "Compiling and running a shader on any number of points at once gives each point exactly the result of executing the program on that point alone: conditionals, loops, break and continue through any number of levels, conditional expressions, and calls of user functions with early returns or output arguments, however nested and whether conditions are uniform or varying.",
 ["programs", "inputs"], "every program of nested conditionals, loops, break, continue and calls, and every pattern of points taking each branch",
 "The state of the running points depends on the whole nesting; unit tests run no compiled shader with divergent control flow.",
 ["libs/slcomp/backend/vmoutput.cpp", "libs/shadervm/shadervm.cpp", "libs/shadervm/shaderexecenv/shaderexecenv.cpp", "libs/slcomp/parse/typecheck.cpp"],
 [("running state", "libs/shadervm/shadervm.cpp"), ("code generation", "libs/slcomp/backend/vmoutput.cpp")],
 "ShaderVM", "TLC generates programs, proves the mask machine equal to per point execution on them, and gives the results; aqsl compiles and the renderer runs each, whose outputs are compared per point.")
prop("S02", "Shading language values: operators, types, arrays, calls, matrices, strings",
 "Every expression of a compiled shader has the value the shading language defines: operators with their precedence and overloads, implicit and explicit conversions between uniform and varying and between float, color and point types, component access, arrays, user functions with output arguments and locals, built-in functions on numbers, vectors, matrices and strings. Constants, local variables, parameters and array elements behave alike wherever they are used.",
 ["programs", "inputs"], "every well typed expression and assignment, in any nesting, with uniform and varying operands",
 "The instruction chosen depends on the types of nested operands; tests check single built-ins, never compiled expressions.",
 ["libs/slcomp/parse/typecheck.cpp", "libs/slcomp/backend/vmoutput.cpp", "libs/shadervm/shadervm.h", "libs/shadervm/shadervm1.cpp", "libs/shadervm/shaderexecenv/shaderexecenv.cpp"],
 [("type checking and casts", "libs/slcomp/parse/typecheck.cpp"), ("operators", "libs/shadervm/shadervm.h")],
 "ShaderExpr", "TLC generates typed programs with their exact rational results; aqsl compiles and the renderer runs each, and the outputs are compared per point.")

prop("S03", "A shader sees the primitive's values, else the request's, else the defaults",
 "Each parameter of a shader has the value the primitive carries under its name, else the one the shader request gave, else its default, for every type, class and array; no primitive's values reach another primitive. Points, vectors and normals (also as array elements) given by a primitive are in its object space, those given by the request or as defaults in the coordinate system of the request, and a space named in the shader or in a coordinate system request means what it meant there.",
 ["histories", "inputs"], "every program of shader requests, transformations, attribute blocks and primitives with any parameters given at either place",
 "Defaults, instance values and primitive variables overwrite each other in storage shared between primitives; no test runs a shader in the renderer.",
 ["libs/shadervm/shadervm.cpp", "libs/shadervm/shadervariable.h", "libs/core/geometry/surface.cpp", "libs/core/parameters.h"],
 [("arguments and defaults", "libs/shadervm/shadervm.cpp"), ("storage", "libs/shadervm/shadervariable.h"), ("primitive variables", "libs/core/geometry/surface.cpp")],
 "ShaderParams", "TLC generates programs with the value of each parameter at each primitive; shaders print what they see in the real renderer, which is compared.")

prop("S04", "Displacement, surface, atmosphere and imager shaders act in turn, as in force",
 "Each primitive is moved by the displacement shader in force for it, coloured at the moved places by its surface shader and then changed by its atmosphere shader, and each finished pixel is changed by the imager in force for its world, wherever buckets, grids and displacement bounds fall. Attribute and frame blocks bring back the shaders they found, and a shader asking another for a variable by name gets its value exactly when that shader is there and has it.",
 ["histories", "inputs"], "every sequence of shader requests, transformations and blocks over several worlds",
 "Which shaders run on a primitive, in which order and with which of each other's variables depends on the history of the stream; no unit test renders.",
 ["libs/core/micropolygon.cpp", "libs/core/imagers.cpp", "libs/core/options.cpp", "libs/core/attributes.h", "libs/core/api/ri.cpp", "libs/shadervm/shaderexecenv/shadeops_inter.cpp"],
 [("stages", "libs/core/micropolygon.cpp"), ("imager", "libs/core/imagers.cpp"), ("messages", "libs/shadervm/shaderexecenv/shadeops_inter.cpp")],
 "ShaderPipeline", "TLC generates programs with the image of each world; the real renderer renders each with shaders that record what they saw, and every pixel is compared.")

prop("M01", "Motion blur shows what is there during each part of the shutter",
 "With the shutter open over a span of time, each sample of a pixel shows what is nearest there at a moment of its own share of the span, for primitives that move, grow or change shape between the times of motion blocks, under moving and still blocks of transformations and a moving camera. Nothing that is there at such a moment is missing and nothing that is not is shown, whatever buckets, grids and splits come in between; before the first and after the last time given everything stands still.",
 ["histories", "inputs"], "every sequence of motion blocks, transformations and primitives, shutter and sample count",
 "Bounds, splits, culls and samples must agree on where a moving thing is at every moment; no unit test renders motion.",
 ["libs/core/api/ri.cpp", "libs/core/transform.cpp", "libs/core/geometry/surface.cpp", "libs/core/micropolygon.cpp", "libs/core/imagebuffer.cpp", "libs/core/bucketprocessor.cpp", "libs/core/motion.h"],
 [("moving transformations", "libs/core/transform.cpp"), ("bounds", "libs/core/geometry/surface.cpp"), ("moving micropolygons", "libs/core/micropolygon.cpp"), ("moving primitives", "libs/core/motion.h")],
 "Motion", "TLC generates programs with the bounds each pixel must lie between, from what each share of the shutter can show; the real renderer renders each and every pixel is compared.")

prop("L01", "Lights illuminate exactly the primitives they are on for, from where they are",
 "A primitive is lit by exactly the lights in force when it is specified, as LightSource, AreaLightSource and Illuminate left them within attribute, frame and world blocks and however handles are reused, each placed by the transformation in force at its definition. Surface shaders see each such light once per illuminance loop, with its colour and direction at the point asked for, within the cone and category requested and through break and continue; ambient, diffuse, specular and phong combine the same lights.",
 ["histories", "inputs"], "every sequence of light, illuminate, transformation and block requests over several worlds, and every point of every primitive",
 "Which lights are on, where they are and what is cached between them depends on the history of the stream; no unit test lights a surface.",
 ["libs/core/lights.cpp", "libs/core/attributes.h", "libs/core/api/ri.cpp", "libs/shadervm/shaderexecenv/shadeops_illum.cpp", "libs/shadervm/shadervm2.cpp", "libs/slcomp/backend/vmoutput.cpp"],
 [("lights in force", "libs/core/attributes.h AddLightsource"), ("illuminance", "libs/shadervm/shaderexecenv/shadeops_illum.cpp")],
 "Lighting", "TLC generates streams of light and block requests with what every point receives from every light; the renderer shades them and 17 sums over the lights are compared per point.")

prop("H03", "Solids show exactly the surfaces of the volume their operations denote",
 "A ray through nested union, intersection, difference and primitive solid blocks shows exactly those faces of the primitives at which it enters or leaves the volume the tree of operations denotes, in depth order. This holds wherever the eye is (also inside a solid), whatever surfaces outside the solids lie in front, however the primitives are represented, split, placed in buckets and instanced, and surfaces outside a solid are not affected by it.",
 ["inputs", "histories"], "every tree of solid operations over closed primitives, seen along every ray, with any other surfaces in the picture",
 "The faces shown depend on the parity of every primitive along the whole ray, in a tree of any shape; no test renders a solid.",
 ["libs/core/csgtree.cpp", "libs/core/csgtree.h", "libs/core/api/graphicsstate.cpp", "libs/core/geometry/surface.cpp", "libs/core/bucketprocessor.cpp", "libs/core/geometry/polygon.cpp"],
 [("evaluation of the tree", "libs/core/csgtree.cpp ProcessTree"), ("no culling of solids", "libs/core/bucketprocessor.cpp occlusionCullSurface")],
 "Solids", "TLC generates trees of solids over boxes with the denotation of every pixel; the renderer renders them and the faces seen in each pixel are compared.")

NA = []   # (id, reason)

def main():
    with open(os.path.join(VERIF, "properties.jsonl"), "w") as f:
        for p in P:
            f.write(json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"],
                "quantifier": {"over": p["over"], "text": p["text"]}, "why_tests_cant": p["why"],
                "anchors": {"files": p["files"], "mechanism": [{"name": a, "where": b} for a, b in p["mech"]],
                            "observe_at": p["observe"], "hook_needed": None}}) + "\n")
            assert len(p["title"]) <= 80, p["id"]
    m = {"version": 1, "setup_cmd": "python3 -m vf.setup",
         "checks": [{"property": p["id"], "quick_cmd": "python3 -m vf.check %s quick" % p["id"],
                     "thorough_cmd": "python3 -m vf.check %s thorough" % p["id"],
                     "technique": "TLA+ specification (%s) checked with TLC; its behaviours replayed into the real code" % p["spec"],
                     "level": "model_checking", "level_note": p["note"]} for p in P if os.path.exists(os.path.join(VERIF, "props", p["id"] + ".py"))],
         "not_applicable": [{"property": a, "reason": b} for a, b in NA]}
    json.dump(m, open(os.path.join(VERIF, "MANIFEST.json"), "w"), indent=1)

if __name__ == "__main__":
    main()
