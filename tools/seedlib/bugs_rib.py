def ribbug(id, prop, edits, needs, breaks, cases, extra=None):
    fs = {"ribpipe.cpp": "@ribpipe.cpp"}
    for n, (args, text) in enumerate(cases):
        fs["cases/%d.rib" % n] = text; fs["cases/%d.args" % n] = args
    for k, v in (extra or {}).items(): fs["cases/" + k] = v
    bug(id, prop, edits, needs, breaks, "demo_rib.sh", fs)

R = "libs/riutil/"
ribbug("rib01", "C01", [(R + "ribtokenizer.cpp", "	conv.i += decodeInt(inBuf, 4);", "	conv.i += static_cast<boost::int64_t>(static_cast<int>(decodeInt(inBuf, 4)));")],
  "a binary 64 bit floating point number whose low word has its top bit set",
  "the low word is sign extended, so that the number is read with a relative error of up to 1e-6",
  [("", b"##RenderMan RIB\nTranslate 1 2 \xa5\x3f\xf0\x00\x01\xf0\x00\x00\x00\n")])
ribbug("rib02", "C02", [(R + "riblexer.cpp", "        m_tokenizer.get();\n        nextType = m_tokenizer.peek().type();\n    }", "        m_tokenizer.get();\n        nextType = m_tokenizer.peek().type();\n        // an unterminated array extends to its end marker\n        if(nextType == RibToken::ARRAY_BEGIN)\n        {\n            while(nextType != RibToken::ARRAY_END && nextType != RibToken::ENDOFFILE)\n            {\n                m_tokenizer.get();\n                nextType = m_tokenizer.peek().type();\n            }\n        }\n    }")],
  "a malformed request which contains, after the error, an array without its closing bracket",
  "the requests after the unterminated array, up to the next closing bracket, are swallowed",
  [("", "Translate 1 \"x\" 2 [1 2\nScale 1 2 3\nRotate 1 2 3 4\nColor [1 1 1]\nOpacity [0 0 0]\n")])
ribbug("rib03", "C03", [(R + "ribwriter.cpp", "if(len < 16)", "if(len <= 16)")],
  "a string of exactly 16 bytes written to a binary RIB", "the string and what follows are read back as something else",
  [("binary reread", "Attribute \"identifier\" \"name\" [\"0123456789abcdef\"]\nAttributeBegin\nAttributeEnd\nSphere 1 -1 1 360\n")])
ribbug("rib04", "C04", [(R + "ribwriter.cpp", "m_services.parseRib(inputFile, name, m_services.firstFilter());", "m_services.parseRib(inputFile, name, *this);")],
  "an archive file which contains a conditional, an inline archive or another request that a filter handles", "the archive's requests bypass the filters, so that they are not executed as if written in place",
  [("interp renderutil", "AttributeBegin\nReadArchive \"a.inc\"\nAttributeEnd\n")], {"a.inc": "IfBegin \"F\"\nSphere 1 -1 1 360\nElse\nSphere 2 -2 2 360\nIfEnd\n"})
ribbug("rib05", "C05", [(R + "ricxx_validate.cpp", "    if(m_scopeStack.top() == Scope_Archive && newScope != Scope_Archive)\n        return;", "    if(m_scopeStack.top() == Scope_Archive)\n        return;")],
  "an inline archive defined inside another inline archive", "the inner ArchiveEnd is taken for the end of the outer archive, so that the outer one's is rejected",
  [("validate", "ArchiveBegin \"a\"\nArchiveBegin \"b\"\nSphere 1 -1 1 360\nArchiveEnd\nSphere 2 -2 2 360\nArchiveEnd\nSphere 3 -3 3 360\nFormat 1 1 1\n")])
ribbug("rib06", "C06", [(R + "renderutil_filter.cpp", "                m_ifInactive = m_trueClauseFound;", "                m_ifInactive = !m_ifInactive;")],
  "an If with a true branch that is not the last one before Else", "the Else branch is executed in addition to the true branch",
  [("renderutil", "IfBegin \"T\"\nRotate 1 0 0 1\nElseIf \"F\"\nRotate 2 0 0 1\nElse\nRotate 3 0 0 1\nIfEnd\nRotate 4 0 0 1\n")])
ribbug("rib07", "C07", [(R + "ricxx_cache.h", "                        intCount += size;\n", "                        intCount += pList[i].spec().arraySize;\n")],
  "a recorded request with two integer parameters, the first having more values than its declared array size (a value per vertex or face)", "the values of the second parameter overwrite those of the first when the object is instanced",
  [("renderutil", 'ObjectBegin "o"\nPoints "P" [0 0 0 1 1 1 2 2 2] "vertex int fa" [1 2 3] "vertex int fb" [4 5 6]\nObjectEnd\nObjectInstance "o"\n')])
ribbug("rib08", "C08", [(R + "ricxx_filter.cpp", "RtVoid OnOffFilter::MotionBegin(const FloatArray& times)\n{\n    if(m_isActive)\n        nextFilter().MotionBegin(times);", "RtVoid OnOffFilter::MotionBegin(const FloatArray& times)\n{\n    if(m_isActive || times.size() > 1)\n        nextFilter().MotionBegin(times);")],
  "a motion block inside a frame which is not selected", "the start of the motion block leaks out of the dropped frame",
  [("frames=2-3,7", "FrameBegin 1\nMotionBegin [0 1]\nTranslate 1 0 0\nTranslate 2 0 0\nMotionEnd\nFrameEnd\nFrameBegin 2\nTranslate 3 0 0\nFrameEnd\n")])
