import glob as _g, os as _o
def rendbug(id, prop, edits, needs, breaks, cases=None, extra=None):
    fs = {k: "@../../harness/" + k for k in ("rendtool.cpp", "stub.cpp", "cap_dspy.cpp")}
    fs["capcmp.py"] = "@capcmp.py"
    for f in _g.glob(H + "/../harness/sl/*.sl"): fs["sl/" + _o.path.basename(f)] = "@../../harness/sl/" + _o.path.basename(f)
    for f in _g.glob(H + "/seedlib/cases/%s+*.sl" % id): fs["sl/" + f.rsplit("+", 1)[1]] = "@cases/" + _o.path.basename(f)
    for f in _g.glob(H + "/seedlib/cases/%s@*" % id): fs["cases/" + f.rsplit("@", 1)[1]] = "@cases/" + _o.path.basename(f)
    if cases is None: fs["cases/0.rib"] = "@cases/%s.rib" % id
    for n, text in enumerate(cases or []): fs["cases/%d.rib" % n] = text
    for k, v in (extra or {}).items(): fs["cases/" + k] = v
    bug(id, prop, edits, needs, breaks, "demo_rend.sh", fs)

C = "libs/core/"
rendbug("rend01", "H01", [(C + "occlusion.cpp", "TqFloat(1<<depthY)/numYSubpix)", "TqFloat(1<<depthY)/(reg.height()*xSamples))")],
  "different numbers of samples in x and y, and a surface behind an opaque one that covers part of a bucket",
  "the occlusion tree's bound is computed from the wrong sample count, so that visible surfaces are culled")
rendbug("rend02", "H02", [(C + "bucketprocessor.cpp", "			if(hitPrevZ < D)\n", "			if(hitPrevZ < D && !(sampleData.occlZ < FLT_MAX))\n")],
  "the midpoint depth filter and three opaque surfaces drawn such that the second nearest comes last",
  "the nearest surface is replaced by the one behind it")
rendbug("rend03", "D01", [(C + "ddmanager/ddmanager.cpp", "&& maxVal <= std::numeric_limits<PtDspySigned8>::max())", "&& maxVal <= std::numeric_limits<PtDspyUnsigned8>::max())")],
  "a quantisation with a negative minimum and a maximum between 128 and 255", "a signed 8 bit type is chosen, in which larger values wrap to negative ones")
rendbug("rend04", "G01", [(C + "attributes.h", "				if ( pAttr.use_count() <= 2 )", "				if ( pAttr.use_count() <= 3 )")],
  "a user attribute set again inside one attribute block, and a primitive after the end of that block", "the change made in the inner block survives AttributeEnd")
rendbug("rend05", "G02", [(C + "transform.cpp", "			m_StaticMatrix = matTrans;\n			m_Handedness = (flip)? !camhand : camhand;\n", "			m_StaticMatrix = matTrans;\n			m_Handedness = flip;\n")],
  "a mirrored camera and an absolute Transform in the world, on a one sided primitive", "the side seen is the wrong one, since the handedness of the camera is forgotten")
rendbug("rend06", "S01", [("libs/slcomp/backend/vmoutput.cpp", "(rsPopNum-1) <<", "(rsPopNum-breakDepth) <<")],
  "a continue with a depth of two or more in nested loops", "points continue too near a loop: the rest of an intermediate loop body is still executed")
rendbug("rend07", "S02", [("libs/shadervm/shadervm1.cpp", "(pVar->Size()>1 || A->Size()>1)?class_varying", "(pVar->Size()>1)?class_varying")],
  "a uniform array read with an index which differs between points", "all points get the element selected by one of them")
rendbug("rend09", "H03", [(C + "csgtree.cpp", "		++c;\n", "		if ( !ii->expired() )\n			++c;\n"),
  (C + "csgtree.cpp", "		if ( pChild.get() == pNode )\n", "		if ( !pChild )\n			--iChild;\n		else if ( pChild.get() == pNode )\n")],
  "an operation one of whose primitives is empty, or has been rendered completely already", "children without surfaces are left out of the operation instead of counting as empty volumes")
rendbug("rend08", "L01", [(C + "renderer.cpp", "	m_lights[name] = light;\n", "	m_lights.insert(TqLightMap::value_type(name, light));\n")],
  "a light handle used for a second light, which is then switched off or on", "Illuminate refers to the light first given the handle")
rendbug("rend10", "G03", [(C + "geometry/cubiccurves.cpp", "			vai[ 1 ] = ((segmentVaryingIndex+1)%nVarying) + curveVaryingIndexStart;", "			vai[ 1 ] = ((segmentVaryingIndex+1 < nVarying) ? segmentVaryingIndex+1 : segmentVaryingIndex) + curveVaryingIndexStart;")],
  "the last segment of a periodic cubic curve with a varying variable or width", "the variable does not return to its first value at the end of the curve")
rendbug("rend11", "H04", [(C + "bucketprocessor.cpp", "			m_hasValidSamples |= m_aieImage[which]->hasValidSamples();", "			m_hasValidSamples = m_aieImage[which]->hasValidSamples();")],
  "a filter wider than a pixel, and a surface which ends within the filter's reach of the edge of an otherwise empty bucket", "the bucket is taken for empty although samples shared with its neighbours belong to its pixels")
T = "include/aqsis/tex/"
rendbug("rend13", "T02", [(T + "filtering/filtertexture.h", "		TqInt x0 = lfloor(TqFloat(support.sx.start)/buffer.width()) * buffer.width();", "		TqInt x0 = (support.sx.start/buffer.width()) * buffer.width();")],
  "a lookup within reach of the left edge of a texture with black or periodic wrapping in s", "the texels beyond the left edge are left out, as if the image ended there")
rendbug("rend12", "T01", [("libs/tex/maketexture/downsample.h", "filterOffsetY = (filterWeights.height()-1) / 2", "filterOffsetY = (filterWeights.width()-1) / 2")],
  "a level of odd width and even height or the reverse, and a filter where that changes the number of taps", "the rows of the next level are taken from the wrong rows of the one before")
rendbug("rend14", "T03", [("libs/tex/filtering/cubeenvironmentsampler.h", "	tScale *= 0.5/2*m_fovCotan;", "	tScale *= 0.5/2;")],
  "a cube face environment made with a field of view other than 90 degrees, and a direction off the middle of a face", "the lookup lands on the wrong row of the face")
rendbug("rend16", "P01", [(C + "geometry/procedural.cpp", "	m_pconStored->m_pattrCurrent = m_pAttributes;\n\n	m_pconStored", "	if ( !m_pconStored->m_pattrCurrent )\n		m_pconStored->m_pattrCurrent = m_pAttributes;\n\n	m_pconStored")],
  "attributes changed after a procedural within the same block, and the procedural expanded only when its bucket is rendered", "the contents of the procedural are given attributes set after the request")
rendbug("rend17", "S03", [("libs/shadervm/shadervm.cpp", "		 i < m_InstancedParams.end(); i+=2 )\n	{\n		(*(i+1))", "		 i < m_InstancedParams.end(); i+=2 )\n	{\n		if ( (*(i+1))->Class() == class_varying )\n			(*(i+1))")],
  "a shader instance with a uniform parameter, used by a primitive that overrides it and then by one that does not", "the second primitive is shaded with the value of the first")
rendbug("rend18", "M01", [(C + "micropolygon.cpp", "		while(startKey < endKey_1)\n		{\n			startKey++;", "		if(startKey < endKey_1)\n		{\n			startKey = endKey_1;")],
  "three or more motion keys of which two or more lie inside one division of the shutter", "an intermediate key is left out of the bound, so that the surface is missing where it only was then")
_atm = """	// Perform atmosphere shading
	boost::shared_ptr<IqShader> pshadAtmosphere = pSurface()->pAttributes()->pshadAtmosphere(QGetRenderContext()->Time());
	if ( pshadAtmosphere )
	{
		AQSIS_TIME_SCOPE(Atmosphere_shading);
		pshadAtmosphere->Evaluate( m_pShaderExecEnv.get() );
	}

"""
rendbug("rend19", "S04", [(C + "micropolygon.cpp", _atm + "	// Cull any MPGs whose", "	// Cull any MPGs whose"), (C + "micropolygon.cpp", "	DeleteVariables( false );\n\n	STATS_INC( GRD_shd", _atm + "	DeleteVariables( false );\n\n	STATS_INC( GRD_shd")],
  "a surface that is transparent after its surface shader and made visible by its atmosphere shader", "such surfaces are dropped before the atmosphere is applied")
