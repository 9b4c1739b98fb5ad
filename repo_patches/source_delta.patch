From fc1b34b29732771965c01454b2d29ffeabaf7272 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:01:16 +0000
Subject: [PATCH 01/78] fix: count a CRLF straddling the RIB input buffer
 boundary as one line end

---
 libs/riutil/ribinputbuffer.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libs/riutil/ribinputbuffer.cpp b/libs/riutil/ribinputbuffer.cpp
index b6e33dd..3222376 100644
--- a/libs/riutil/ribinputbuffer.cpp
+++ b/libs/riutil/ribinputbuffer.cpp
@@ -100,7 +100,7 @@ void RibInputBuffer::bufferNextChars()
 		m_buffer[0] = m_buffer[m_bufSize-2];
 		m_buffer[1] = m_buffer[m_bufSize-1];
 		// Reset buffer position
-		m_bufPos = 1;
+		m_bufPos = 2;
 	}
 	// Now fill the buffer with as many characters as possible using a
 	// non-blocking read with readsome().
-- 
2.43.0


From e7a77f9c10293b98a49e1932cb669f22f644f75e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:08:45 +0000
Subject: [PATCH 02/78] fix: keep the inline parameter declaration alive while
 the RIB writer prints it

---
 libs/riutil/ribwriter.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/libs/riutil/ribwriter.cpp b/libs/riutil/ribwriter.cpp
index 8e8671e..e57f473 100644
--- a/libs/riutil/ribwriter.cpp
+++ b/libs/riutil/ribwriter.cpp
@@ -631,12 +631,14 @@ class RibWriter : public Ri::Renderer
                 catch(XqValidation&)
                 { }
                 const char* token = param.name();
-                std::ostringstream fmt;
+                std::string inlineDecl;
                 if(useInlineDecl)
                 {
                     // Format inline declarations.
+                    std::ostringstream fmt;
                     fmt << CqPrimvarToken(param.spec(), param.name());
-                    token = fmt.str().c_str();
+                    inlineDecl = fmt.str();
+                    token = inlineDecl.c_str();
                 }
                 switch(param.spec().storageType())
                 {
-- 
2.43.0


From 442c2fd9800c553ae723d845621fc22a534d1cc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:12:03 +0000
Subject: [PATCH 03/78] fix: accumulate ASCII RIB numbers in double precision,
 so that FLT_MAX is not read back as infinity

---
 libs/riutil/ribtokenizer.cpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/libs/riutil/ribtokenizer.cpp b/libs/riutil/ribtokenizer.cpp
index 684adcb..2bd6097 100644
--- a/libs/riutil/ribtokenizer.cpp
+++ b/libs/riutil/ribtokenizer.cpp
@@ -360,7 +360,8 @@ void RibTokenizer::readNumber(RibInputBuffer& inBuf, RibToken& tok)
 	RibInputBuffer::CharType c = 0;
 	int sign = 1;
 	int intResult = 0;
-	float floatResult = 0;
+	// Accumulate in double precision so that the result is only rounded once.
+	double floatResult = 0;
 	bool haveReadDigit = false;
 	c = inBuf.get();
 	// deal with optional sign
@@ -398,7 +399,7 @@ void RibTokenizer::readNumber(RibInputBuffer& inBuf, RibToken& tok)
 					tok.error("Expected at least one digit in float");
 					return;
 				}
-				float thisPlaceVal = 0.1;
+				double thisPlaceVal = 0.1;
 				while(std::isdigit(c))
 				{
 					floatResult += (c - '0') * thisPlaceVal;
@@ -409,7 +410,7 @@ void RibTokenizer::readNumber(RibInputBuffer& inBuf, RibToken& tok)
 				if(c != 'e' && c != 'E')
 				{
 					inBuf.unget();
-					tok = floatResult;
+					tok = static_cast<float>(floatResult);
 					return;
 				}
 			}
@@ -458,7 +459,7 @@ void RibTokenizer::readNumber(RibInputBuffer& inBuf, RibToken& tok)
 	exponent *= sign;
 	inBuf.unget();
 	floatResult *= std::pow(10.0,exponent);
-	tok = floatResult;
+	tok = static_cast<float>(floatResult);
 }
 
 /** \brief Read in a string
-- 
2.43.0


From 0d6097b1e75abbc305ac8e1ffbb005614e9117e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:16:49 +0000
Subject: [PATCH 04/78] fix: restore the enclosing If's state after a nested
 conditional; ignore stray Else/ElseIf

---
 libs/riutil/renderutil_filter.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/libs/riutil/renderutil_filter.cpp b/libs/riutil/renderutil_filter.cpp
index fc5e090..f04fb6a 100644
--- a/libs/riutil/renderutil_filter.cpp
+++ b/libs/riutil/renderutil_filter.cpp
@@ -61,6 +61,7 @@ class RenderUtilFilter : public Ri::Filter
         // Conditional testing stuff
         IfElseTestCallback m_ifElseTest;
         std::stack<bool> m_ifInactiveStack;
+        std::stack<bool> m_trueClauseFoundStack;
         bool m_trueClauseFound;
         bool m_ifInactive;
 #       define IF_ELSE_TEST if(m_ifInactive) return;
@@ -108,6 +109,7 @@ class RenderUtilFilter : public Ri::Filter
             m_inObject(false),
             m_ifElseTest(conditionTest),
             m_ifInactiveStack(),
+            m_trueClauseFoundStack(),
             m_trueClauseFound(false),
             m_ifInactive(false)
         { }
@@ -245,6 +247,7 @@ class RenderUtilFilter : public Ri::Filter
                     return;
                 }
                 m_ifInactiveStack.push(m_ifInactive);
+                m_trueClauseFoundStack.push(m_trueClauseFound);
                 if(m_ifInactive)
                     return;
                 m_trueClauseFound = m_ifElseTest(condition);
@@ -264,7 +267,8 @@ class RenderUtilFilter : public Ri::Filter
                     return;
                 }
                 // If previous level conditional was inactive, just return.
-                if(m_ifInactiveStack.top())
+                // (test empty() to avoid a crash for invalid scoping)
+                if(m_ifInactiveStack.empty() || m_ifInactiveStack.top())
                     return;
                 if(m_trueClauseFound)
                 {
@@ -292,7 +296,7 @@ class RenderUtilFilter : public Ri::Filter
                     nextFilter().Else();
                     return;
                 }
-                if(m_ifInactiveStack.top())
+                if(m_ifInactiveStack.empty() || m_ifInactiveStack.top())
                     return;
                 // Else clause is activated when we haven't found a true
                 // If/ElseIf clause yet
@@ -316,6 +320,8 @@ class RenderUtilFilter : public Ri::Filter
                     return;
                 m_ifInactive = m_ifInactiveStack.top();
                 m_ifInactiveStack.pop();
+                m_trueClauseFound = m_trueClauseFoundStack.top();
+                m_trueClauseFoundStack.pop();
             }
         }
 
-- 
2.43.0


From 8347b7ec0e9c311578f9c1a5a75b6b2e15b238e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:19:39 +0000
Subject: [PATCH 05/78] fix: keep a cached archive/object alive while its
 replay redefines it

---
 libs/riutil/renderutil_filter.cpp | 43 +++++++++++++++++--------------
 1 file changed, 24 insertions(+), 19 deletions(-)

diff --git a/libs/riutil/renderutil_filter.cpp b/libs/riutil/renderutil_filter.cpp
index f04fb6a..ecf332b 100644
--- a/libs/riutil/renderutil_filter.cpp
+++ b/libs/riutil/renderutil_filter.cpp
@@ -38,6 +38,8 @@
 #include <vector>
 #include <stack>
 
+#include <boost/shared_ptr.hpp>
+
 #include <aqsis/util/exception.h>
 #include "ricxx_cache.h"
 #include <aqsis/riutil/errorhandler.h>
@@ -53,8 +55,12 @@ class RenderUtilFilter : public Ri::Filter
 {
     private:
         // Caching stuff
-        std::vector<CachedRiStream*> m_archives;
-        std::vector<CachedRiStream*> m_objectInstances;
+        //
+        // Streams are shared so that a stream can be redefined while it's
+        // being replayed.
+        typedef boost::shared_ptr<CachedRiStream> CachedRiStreamPtr;
+        std::vector<CachedRiStreamPtr> m_archives;
+        std::vector<CachedRiStreamPtr> m_objectInstances;
         CachedRiStream* m_currCache;
         int m_nested;
         bool m_inObject;
@@ -69,7 +75,7 @@ class RenderUtilFilter : public Ri::Filter
         // Find a cached stream in a given cache.
         //
         // Return -1 if not found.
-        static int findCachedStream(std::vector<CachedRiStream*>& cache, const char* name)
+        static int findCachedStream(std::vector<CachedRiStreamPtr>& cache, const char* name)
         {
             for(int i = 0, iend = cache.size(); i < iend; ++i)
                 if(cache[i]->name() == name)
@@ -81,7 +87,7 @@ class RenderUtilFilter : public Ri::Filter
         //
         // If a stream with the same name already exists, the new stream
         // replaces the old one.
-        static CachedRiStream* newCachedStream(std::vector<CachedRiStream*>& cache,
+        static CachedRiStream* newCachedStream(std::vector<CachedRiStreamPtr>& cache,
                                    const char* name)
         {
             // First search to make sure we haven't already defined a stream
@@ -89,14 +95,13 @@ class RenderUtilFilter : public Ri::Filter
             int index = findCachedStream(cache, name);
             if(index >= 0)
             {
-                delete cache[index];
-                cache[index] = new CachedRiStream(name);
-                return cache[index];
+                cache[index].reset(new CachedRiStream(name));
+                return cache[index].get();
             }
             else
             {
-                cache.push_back(new CachedRiStream(name));
-                return cache.back();
+                cache.push_back(CachedRiStreamPtr(new CachedRiStream(name)));
+                return cache.back().get();
             }
         }
 
@@ -114,14 +119,6 @@ class RenderUtilFilter : public Ri::Filter
             m_ifInactive(false)
         { }
 
-        ~RenderUtilFilter()
-        {
-            for(size_t i = 0; i < m_archives.size(); ++i)
-                delete m_archives[i];
-            for(size_t i = 0; i < m_objectInstances.size(); ++i)
-                delete m_objectInstances[i];
-        }
-
         //--------------------------------------------------
         // Inline archive handling
         virtual RtVoid ArchiveBegin(RtConstToken name, const ParamList& pList)
@@ -160,7 +157,11 @@ class RenderUtilFilter : public Ri::Filter
             // Search for the archive name in the cached archives.
             int index = findCachedStream(m_archives, name);
             if(index >= 0)
-                m_archives[index]->replay(services().firstFilter());
+            {
+                // Hold a reference in case the replay redefines the archive.
+                CachedRiStreamPtr archive = m_archives[index];
+                archive->replay(services().firstFilter());
+            }
             else
             {
                 // If not found in our archive list it's probably on-disk, so
@@ -218,7 +219,11 @@ class RenderUtilFilter : public Ri::Filter
             // Search for the object instance name
             int index = findCachedStream(m_objectInstances, name);
             if(index >= 0)
-                m_objectInstances[index]->replay(services().firstFilter());
+            {
+                // Hold a reference in case the replay redefines the object.
+                CachedRiStreamPtr object = m_objectInstances[index];
+                object->replay(services().firstFilter());
+            }
             else
             {
                 // If we didn't find it, error
-- 
2.43.0


From 1326228fb256ed9490d4a98bd2f09831df894915 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:25:49 +0000
Subject: [PATCH 06/78] fix: encoded request and string tables belong to one
 RIB stream, not to the reader

---
 libs/riutil/ribtokenizer.cpp | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/libs/riutil/ribtokenizer.cpp b/libs/riutil/ribtokenizer.cpp
index 2bd6097..a54d340 100644
--- a/libs/riutil/ribtokenizer.cpp
+++ b/libs/riutil/ribtokenizer.cpp
@@ -59,6 +59,8 @@ struct RibTokenizer::InputState
 	RibToken nextTok;
 	bool haveNext;
 	CommentCallback commentCallback;
+	std::vector<std::string> encodedRequests;
+	EncodedStringMap encodedStrings;
 
 	InputState(std::istream& inStream, const std::string& streamName,
 			const SourcePos& currPos, const SourcePos& nextPos,
@@ -100,18 +102,24 @@ void RibTokenizer::pushInput(std::istream& inStream, const std::string& streamNa
 	m_nextPos = SourcePos(1,1);
 	m_haveNext = false;
 	m_commentCallback = callback;
+	// Each stream has its own tables of encoded requests and strings.
+	m_inputStack.top()->encodedRequests.resize(256);
+	m_inputStack.top()->encodedRequests.swap(m_encodedRequests);
+	m_inputStack.top()->encodedStrings.swap(m_encodedStrings);
 }
 
 void RibTokenizer::popInput()
 {
 	assert(!m_inputStack.empty());
 	// Restore the current state to the state before the previous pushInput()
-	const InputState& restoreState = *m_inputStack.top();
+	InputState& restoreState = *m_inputStack.top();
 	m_currPos = restoreState.currPos;
 	m_nextPos = restoreState.nextPos;
 	m_nextTok = restoreState.nextTok;
 	m_haveNext = restoreState.haveNext;
 	m_commentCallback = restoreState.commentCallback;
+	m_encodedRequests.swap(restoreState.encodedRequests);
+	m_encodedStrings.swap(restoreState.encodedStrings);
 	// Pop the stack, and restore the buffer
 	m_inputStack.pop();
 	if(!m_inputStack.empty())
@@ -301,8 +309,6 @@ void RibTokenizer::scanNext(RibToken& tok)
 								  "request definition");
 						return;
 					}
-					// FIXME: m_encodedRequests should be part of the
-					// pushed/popped state.
 					m_encodedRequests[code] = tok.stringVal();
 				}
 				break;
-- 
2.43.0


From d0021726b04a16b0409c7b77c2d4bbe57ca8eaf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:31:43 +0000
Subject: [PATCH 07/78] fix: a NuPatch has (1+nu-uorder)*(1+nv-vorder) uniform
 values

---
 libs/riutil/ri.xml             | 2 +-
 libs/riutil/ri2ricxx.cpp       | 2 +-
 libs/riutil/ricxx_validate.cpp | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/libs/riutil/ri.xml b/libs/riutil/ri.xml
index ab6c4d6..d647b5c 100644
--- a/libs/riutil/ri.xml
+++ b/libs/riutil/ri.xml
@@ -2254,7 +2254,7 @@
 			</Arguments>
 			<Rib/>
 			<IClassLengths>
-				<Uniform>(1+nu-uorder+1)*(1+nv-vorder+1)</Uniform>
+				<Uniform>(1+nu-uorder)*(1+nv-vorder)</Uniform>
 				<Varying>(1+nu-uorder+1)*(1+nv-vorder+1)</Varying>
 				<Vertex>nu*nv</Vertex>
 			</IClassLengths>
diff --git a/libs/riutil/ri2ricxx.cpp b/libs/riutil/ri2ricxx.cpp
index f4770ca..c1a49a3 100644
--- a/libs/riutil/ri2ricxx.cpp
+++ b/libs/riutil/ri2ricxx.cpp
@@ -1175,7 +1175,7 @@ RtVoid RiNuPatchV(RtInt nu, RtInt uorder, RtFloat uknot_in[], RtFloat umin, RtFl
     Ri::FloatArray uknot(uknot_in, nu+uorder);
     Ri::FloatArray vknot(vknot_in, nv+vorder);
     IClassCounts iclassCounts(1,1,1,1,1);
-    iclassCounts.uniform = (1+nu-uorder+1)*(1+nv-vorder+1);
+    iclassCounts.uniform = (1+nu-uorder)*(1+nv-vorder);
     iclassCounts.varying = (1+nu-uorder+1)*(1+nv-vorder+1);
     iclassCounts.vertex = nu*nv;
     iclassCounts.facevarying = iclassCounts.varying;
diff --git a/libs/riutil/ricxx_validate.cpp b/libs/riutil/ricxx_validate.cpp
index 0922266..06afd98 100644
--- a/libs/riutil/ricxx_validate.cpp
+++ b/libs/riutil/ricxx_validate.cpp
@@ -1510,7 +1510,7 @@ RtVoid RiCxxValidate::NuPatch(RtInt nu, RtInt uorder, const FloatArray& uknot,
         );
     }
     SqInterpClassCounts iclassCounts(1,1,1,1,1);
-    iclassCounts.uniform = (1+nu-uorder+1)*(1+nv-vorder+1);
+    iclassCounts.uniform = (1+nu-uorder)*(1+nv-vorder);
     iclassCounts.varying = (1+nu-uorder+1)*(1+nv-vorder+1);
     iclassCounts.vertex = nu*nv;
     iclassCounts.facevarying = iclassCounts.varying;
-- 
2.43.0


From 06cd1f6307aea944219991d04d7904f08339cb63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:31:43 +0000
Subject: [PATCH 08/78] fix: reject an ArchiveEnd which does not end an
 archive, instead of closing the enclosing block

---
 libs/riutil/ri.xml             | 3 +++
 libs/riutil/ricxx_validate.cpp | 1 +
 2 files changed, 4 insertions(+)

diff --git a/libs/riutil/ri.xml b/libs/riutil/ri.xml
index d647b5c..4062473 100644
--- a/libs/riutil/ri.xml
+++ b/libs/riutil/ri.xml
@@ -3469,6 +3469,9 @@
 			<ReturnType>RtVoid</ReturnType>
 			<Arguments/>
 			<Rib/>
+			<ValidScope>
+				<Archive/>
+			</ValidScope>
 		</Procedure>
 
 	</Procedures>
diff --git a/libs/riutil/ricxx_validate.cpp b/libs/riutil/ricxx_validate.cpp
index 06afd98..4d58699 100644
--- a/libs/riutil/ricxx_validate.cpp
+++ b/libs/riutil/ricxx_validate.cpp
@@ -2032,6 +2032,7 @@ RtVoid RiCxxValidate::ArchiveBegin(RtConstToken name, const ParamList& pList)
 
 RtVoid RiCxxValidate::ArchiveEnd()
 {
+    checkScope(ApiScope(Scope_Archive), "ArchiveEnd");
     popAttributes();
     nextFilter().ArchiveEnd();
     popScope(Scope_Archive);
-- 
2.43.0


From 5fe9c84ddf3503812c0dbcf89502804192839622 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:04:38 +0000
Subject: [PATCH 09/78] fix: a matte surface hides the opacity behind it by its
 own opacity, not its colour

---
 libs/core/imagepixel.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/libs/core/imagepixel.cpp b/libs/core/imagepixel.cpp
index 2531912..724a0c9 100644
--- a/libs/core/imagepixel.cpp
+++ b/libs/core/imagepixel.cpp
@@ -207,9 +207,9 @@ void CqImagePixel::Combine( enum EqDepthFilter depthfilter, CqColor zThreshold )
 						lerp( sample_data[Sample_OBlue], samplecolor.b(), 0.0f )
 					);
 					sampleopacity = CqColor(
-						lerp( sample_data[Sample_Red], sampleopacity.r(), 0.0f ),
-						lerp( sample_data[Sample_Green], sampleopacity.g(), 0.0f ),
-						lerp( sample_data[Sample_Blue], sampleopacity.b(), 0.0f )
+						lerp( sample_data[Sample_ORed], sampleopacity.r(), 0.0f ),
+						lerp( sample_data[Sample_OGreen], sampleopacity.g(), 0.0f ),
+						lerp( sample_data[Sample_OBlue], sampleopacity.b(), 0.0f )
 					);
 				}
 				else
-- 
2.43.0


From 9ad3914829f7be5711f76bad7508a48a970e2174 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:04:38 +0000
Subject: [PATCH 10/78] fix: the coverage of a pixel was applied to its alpha
 twice

---
 libs/core/bucketprocessor.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/libs/core/bucketprocessor.cpp b/libs/core/bucketprocessor.cpp
index 9e048a9..3da2ea4 100644
--- a/libs/core/bucketprocessor.cpp
+++ b/libs/core/bucketprocessor.cpp
@@ -699,9 +699,10 @@ void CqBucketProcessor::FilterBucket()
 			TqFloat coverage = aCoverages[ i++ ];
 			TqFloat *buffer = m_channelBuffer(x, y, OiIndex);
 
-			// Calculate the alpha as the combination of the opacity and the coverage.
+			// Calculate the alpha from the filtered opacity; samples which hit
+			// nothing already contribute zero opacity to it.
 			TqFloat a = ( buffer[0] + buffer[1] + buffer[2] ) / 3.0f;
-			m_channelBuffer(x, y, alphaIndex)[0] = a * coverage;
+			m_channelBuffer(x, y, alphaIndex)[0] = a;
 			m_channelBuffer(x, y, coverageIndex)[0] = coverage;
 		}
 	}
-- 
2.43.0


From b1f71ea3fbcbf1931ec5192a9b02f4822d3c2e5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:08:16 +0000
Subject: [PATCH 11/78] fix: rounding in smooth interpolation made opaque
 surfaces fall below the z threshold

---
 libs/core/micropolygon.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/libs/core/micropolygon.cpp b/libs/core/micropolygon.cpp
index 287a952..aa12051 100644
--- a/libs/core/micropolygon.cpp
+++ b/libs/core/micropolygon.cpp
@@ -1453,6 +1453,9 @@ void CqMicroPolygon::InterpolateOutputs(const SqMpgSampleInfo& cache,
 
 		outCol = w0*cache.col[0] + w1*cache.col[1] + w2*cache.col[2] + w3*cache.col[3];
 		outOpac = w0*cache.opa[0] + w1*cache.opa[1] + w2*cache.opa[2] + w3*cache.opa[3];
+		// Rounding must not make an opaque micropoly slightly transparent.
+		if(cache.isOpaque)
+			outOpac = max(outOpac, gColWhite);
 	}
 	else
 	{
-- 
2.43.0


From 98808504045f17b49dee0d0f47aa4f2814297915 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:08:16 +0000
Subject: [PATCH 12/78] fix: the average depth filter used surfaces below the z
 threshold and the composited opacity, and gave NaN with none above it

---
 libs/core/imagepixel.cpp | 21 ++++++---------------
 1 file changed, 6 insertions(+), 15 deletions(-)

diff --git a/libs/core/imagepixel.cpp b/libs/core/imagepixel.cpp
index 724a0c9..6c79a12 100644
--- a/libs/core/imagepixel.cpp
+++ b/libs/core/imagepixel.cpp
@@ -193,6 +193,8 @@ void CqImagePixel::Combine( enum EqDepthFilter depthfilter, CqColor zThreshold )
 			bool samplehit = false;
 			TqFloat opaqueDepths[2] = { sampleData.occlZ, FLT_MAX };
 			TqFloat maxOpaqueDepth = FLT_MAX;
+			TqFloat totDepth = 0.0f;
+			TqInt totCount = 0;
 
 			for ( std::vector<SqImageSample>::reverse_iterator sample = sampleData.data.rbegin();
 			        sample != sampleData.data.rend();
@@ -236,6 +238,8 @@ void CqImagePixel::Combine( enum EqDepthFilter depthfilter, CqColor zThreshold )
 					// Store the max opaque depth too, if not already stored.
 					if(!(maxOpaqueDepth < FLT_MAX))
 						maxOpaqueDepth = sample_data[Sample_Depth];
+					totDepth += sample_data[Sample_Depth];
+					totCount++;
 				}
 				samplehit = true;
 			}
@@ -278,21 +282,8 @@ void CqImagePixel::Combine( enum EqDepthFilter depthfilter, CqColor zThreshold )
 					}
 					else if ( depthfilter == Filter_Average )
 					{
-						std::vector<SqImageSample>::iterator sample;
-						TqFloat totDepth = 0.0f;
-						TqInt totCount = 0;
-						for ( sample = sampleData.data.begin(); sample != sampleData.data.end(); sample++ )
-						{
-							TqFloat* sample_data = sampleHitData(*sample);
-							if(sample_data[Sample_ORed] >= zThreshold.r() || sample_data[Sample_OGreen] >= zThreshold.g() || sample_data[Sample_OBlue] >= zThreshold.b())
-							{
-								totDepth += sample_data[Sample_Depth];
-								totCount++;
-							}
-						}
-						totDepth /= totCount;
-
-						occlDepth = totDepth;
+						// With nothing above the threshold the depth is infinite.
+						occlDepth = totCount > 0 ? totDepth / totCount : FLT_MAX;
 					}
 					// Default to "min"
 				}
-- 
2.43.0


From e47bd1f04a74a0dbd01287ae06f1a4c9fdbe23a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:12:01 +0000
Subject: [PATCH 13/78] fix: displays combining rgb with z were given white
 instead of the shaded colour

---
 libs/core/ddmanager/ddmanager.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libs/core/ddmanager/ddmanager.cpp b/libs/core/ddmanager/ddmanager.cpp
index 87f369f..f8cb009 100644
--- a/libs/core/ddmanager/ddmanager.cpp
+++ b/libs/core/ddmanager/ddmanager.cpp
@@ -1182,7 +1182,7 @@ void CqDeepDisplayRequest::SendToDisplay(TqInt ymin, TqInt ymaxplus1)
 bool CqDisplayRequest::ThisDisplayNeeds( const TqUlong& htoken, const TqUlong& rgb, const TqUlong& rgba,
         const TqUlong& Ci, const TqUlong& Oi, const TqUlong& Cs, const TqUlong& Os )
 {
-	bool usage = ( ( m_modeHash == rgba ) || ( m_modeHash == rgb ) );
+	bool usage = ( m_modeID & DMode_RGB ) != 0;
 
 	if ( (( htoken == Ci )|| ( htoken == Cs))&& usage )
 		return ( true );
-- 
2.43.0


From d847fabc18772425420f2dc5103e4ac4e873c83b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:16:11 +0000
Subject: [PATCH 14/78] fix: cropped images: send displays only the crop
 window, and place it correctly in scanlines

---
 libs/core/ddmanager/ddmanager.cpp | 47 +++++++++++++++++++++++--------
 1 file changed, 35 insertions(+), 12 deletions(-)

diff --git a/libs/core/ddmanager/ddmanager.cpp b/libs/core/ddmanager/ddmanager.cpp
index f8cb009..f7c9b26 100644
--- a/libs/core/ddmanager/ddmanager.cpp
+++ b/libs/core/ddmanager/ddmanager.cpp
@@ -981,6 +981,20 @@ void CqDisplayRequest::PrepareSystemParameters()
 	m_customParams.push_back(parameter);
 }
 
+namespace {
+
+/// Get the part of a bucket region which lies inside the crop window.
+CqRegion insideCropWindow(const CqRegion& region)
+{
+	return CqRegion(
+		max(region.xMin(), QGetRenderContext()->cropWindowXMin()),
+		max(region.yMin(), QGetRenderContext()->cropWindowYMin()),
+		min(region.xMax(), QGetRenderContext()->cropWindowXMax()),
+		min(region.yMax(), QGetRenderContext()->cropWindowYMax()));
+}
+
+} // anonymous namespace
+
 void CqDisplayRequest::DisplayBucket( const CqRegion& DRegion, const IqChannelBuffer* pBuffer )
 {
 	// If the display is not validated, don't send it data.
@@ -989,10 +1003,14 @@ void CqDisplayRequest::DisplayBucket( const CqRegion& DRegion, const IqChannelBu
 	if ( !m_valid || !m_DataMethod )
 		return;
 
-	TqInt	xmin = DRegion.xMin();
-	TqInt	ymin = DRegion.yMin();
-	TqInt	xmaxplus1 = DRegion.xMax();
-	TqInt	ymaxplus1 = DRegion.yMax();
+	// Only the part of the bucket inside the crop window is sent.
+	const CqRegion region = insideCropWindow(DRegion);
+	TqInt	xmin = region.xMin();
+	TqInt	ymin = region.yMin();
+	TqInt	xmaxplus1 = region.xMax();
+	TqInt	ymaxplus1 = region.yMax();
+	if ( xmin >= xmaxplus1 || ymin >= ymaxplus1 )
+		return;
 	PtDspyError err;
 
 	// Dispatch to display sub-type methods
@@ -1005,7 +1023,7 @@ void CqDisplayRequest::DisplayBucket( const CqRegion& DRegion, const IqChannelBu
 	// until a scanline is complete. Send to display when complete.
 	if (m_flags.flags & PkDspyFlagsWantsScanLineOrder)
 	{
-		if (CollapseBucketsToScanlines( DRegion ))
+		if (CollapseBucketsToScanlines( region ))
 		{
 			// Filled a scan line: time to send complete rows to display
 			SendToDisplay(ymin, ymaxplus1);
@@ -1023,8 +1041,11 @@ void CqDisplayRequest::FormatBucketForDisplay( const CqRegion& DRegion, const Iq
 {
 	static CqRandom random( 61 );
 
-	if (m_DataBucket == 0)
-		m_DataBucket = new unsigned char[m_elementSize * static_cast<int>(DRegion.area())];
+	const CqRegion region = insideCropWindow(DRegion);
+
+	// The buckets sent to a display may be of different sizes.
+	delete [] m_DataBucket;
+	m_DataBucket = new unsigned char[m_elementSize * static_cast<int>(region.area())];
 	if ((m_flags.flags & PkDspyFlagsWantsScanLineOrder) && m_DataRow == 0)
 	{
 		m_DataRow = new unsigned char[m_elementSize * m_width * m_height];
@@ -1043,9 +1064,9 @@ void CqDisplayRequest::FormatBucketForDisplay( const CqRegion& DRegion, const Iq
 		offsets.push_back(std::make_pair(pBuffer->getChannelIndex(bufferChannelName), offset));
 	}
 
-	for ( TqInt y = 0, endy = pBuffer->height(); y < endy; ++y )
+	for ( TqInt y = region.yMin() - DRegion.yMin(), endy = region.yMax() - DRegion.yMin(); y < endy; ++y )
 	{
-		for ( TqInt x = 0, endx = pBuffer->width(); x < endx; ++x )
+		for ( TqInt x = region.xMin() - DRegion.xMin(), endx = region.xMax() - DRegion.xMin(); x < endx; ++x )
 		{
 			double s = random.RandomFloat();
 			TqInt index = 0;
@@ -1134,18 +1155,19 @@ bool CqDisplayRequest::CollapseBucketsToScanlines( const CqRegion& DRegion )
 	TqInt	ymin = DRegion.yMin();
 	TqInt	xmaxplus1 = DRegion.xMax();
 	TqInt	ymaxplus1 = DRegion.yMax();
+	TqInt	xorigin = QGetRenderContext()->cropWindowXMin();
 	TqInt x, y;
 
 	for (y = ymin; y < ymaxplus1; y++)
 	{
 		for (x = xmin; x < xmaxplus1; x++)
 		{
-			memcpy(&(m_DataRow[m_width * m_elementSize * (y - ymin) + m_elementSize * x]), pdata, m_elementSize);
+			memcpy(&(m_DataRow[m_width * m_elementSize * (y - ymin) + m_elementSize * (x - xorigin)]), pdata, m_elementSize);
 			pdata += m_elementSize;
 		}
 	}
 
-	if (xmaxplus1 >= m_width)
+	if (xmaxplus1 >= xorigin + m_width)
 	{
 		// Filled a scan line
 		Aqsis::log() << debug << "filled a scanline" << std::endl;
@@ -1165,11 +1187,12 @@ void CqDisplayRequest::SendToDisplay(TqInt ymin, TqInt ymaxplus1)
 	TqInt y;
 	PtDspyError err;
 	unsigned char* pdata = m_DataRow;
+	TqInt xorigin = QGetRenderContext()->cropWindowXMin();
 
 	// send to the display one line at a time
 	for (y = ymin; y < ymaxplus1; y++)
 	{
-		err = (m_DataMethod)(m_imageHandle, 0, m_width, y, y+1, m_elementSize, pdata);
+		err = (m_DataMethod)(m_imageHandle, xorigin, xorigin + m_width, y, y+1, m_elementSize, pdata);
 		pdata += m_elementSize * m_width;
 	}
 }
-- 
2.43.0


From 5054dac98eebfb10414f211cb7c46eefaf5af3e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:16:24 +0000
Subject: [PATCH 15/78] fix: quantisation of very large values (the depth of
 empty pixels) overflowed to the minimum

---
 libs/core/ddmanager/ddmanager.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libs/core/ddmanager/ddmanager.cpp b/libs/core/ddmanager/ddmanager.cpp
index f7c9b26..318b236 100644
--- a/libs/core/ddmanager/ddmanager.cpp
+++ b/libs/core/ddmanager/ddmanager.cpp
@@ -1086,7 +1086,7 @@ void CqDisplayRequest::FormatBucketForDisplay( const CqRegion& DRegion, const Iq
 				if ( m_QuantizeOneVal != 0 )
 				{
 					// Perform the quantization
-					value = lround(m_QuantizeZeroVal + value * (m_QuantizeOneVal - m_QuantizeZeroVal) + ( m_QuantizeDitherVal * s ) );
+					value = round(m_QuantizeZeroVal + value * (m_QuantizeOneVal - m_QuantizeZeroVal) + ( m_QuantizeDitherVal * s ) );
 					value = clamp<double>(value, m_QuantizeMinVal, m_QuantizeMaxVal) ;
 				}
 				TqInt type = iformat->type & PkDspyMaskType;
-- 
2.43.0


From 74fcb88c87c9019595f655ca1f84f1af55d14669 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:16:24 +0000
Subject: [PATCH 16/78] fix: a display of Ci or Oi aborted the render

---
 libs/core/bucketprocessor.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/libs/core/bucketprocessor.cpp b/libs/core/bucketprocessor.cpp
index 3da2ea4..20f106b 100644
--- a/libs/core/bucketprocessor.cpp
+++ b/libs/core/bucketprocessor.cpp
@@ -395,7 +395,12 @@ void CqBucketProcessor::FilterBucket()
 	std::map<std::string, CqRenderer::SqOutputDataEntry>::iterator aov_i = outputMap.begin();
 	std::map<std::string, CqRenderer::SqOutputDataEntry>::iterator aov_end = outputMap.end();
 	for(; aov_i != aov_end; ++aov_i)
+	{
+		// The standard outputs are already there, even when asked for by name.
+		if(aov_i->first == "Ci" || aov_i->first == "Oi" || aov_i->first == "a" || aov_i->first == "z" || aov_i->first == "coverage")
+			continue;
 		channelMap[m_channelBuffer.addChannel(aov_i->first, aov_i->second.m_NumSamples)] = aov_i->second;
+	}
 
 	TqInt depthIndex = m_channelBuffer.getChannelIndex("z");
 
-- 
2.43.0


From 1ee37da43470ca6d21e8fa1921a01f2bc7e03a42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:17:24 +0000
Subject: [PATCH 17/78] fix: a secondary display whose driver is missing was
 closed through uninitialised pointers

---
 libs/core/ddmanager/ddmanager.h | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/libs/core/ddmanager/ddmanager.h b/libs/core/ddmanager/ddmanager.h
index 92438f0..6b721b1 100644
--- a/libs/core/ddmanager/ddmanager.h
+++ b/libs/core/ddmanager/ddmanager.h
@@ -101,8 +101,12 @@ class CqDisplayRequest : public IqDisplayRequest
 				m_modeHash(modeHash), m_modeID(modeID), m_AOVOffset(dataOffset),
 				m_AOVSize(dataSize), m_QuantizeZeroVal(quantizeZeroVal), m_QuantizeOneVal(quantizeOneVal),
 				m_QuantizeMinVal(quantizeMinVal), m_QuantizeMaxVal(quantizeMaxVal), m_QuantizeDitherVal(quantizeDitherVal), m_QuantizeSpecified(quantizeSpecified), m_QuantizeDitherSpecified(quantizeDitherSpecified),
-				m_isLoaded(false)
-		{}
+				m_DriverHandle(0), m_imageHandle(0), m_OpenMethod(0), m_QueryMethod(0),
+				m_DataMethod(0), m_CloseMethod(0), m_DelayCloseMethod(0),
+				m_isLoaded(false), m_DataRow(0), m_DataBucket(0)
+		{
+			m_flags.flags = 0;
+		}
 		virtual ~CqDisplayRequest();
 
 		/* Query if this display uses the dispay mode variable (one of rgbaz)
-- 
2.43.0


From 5535d191ced536700cc988e826c8197fcec1177f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:17:41 +0000
Subject: [PATCH 18/78] fix: rendering a second image to the same display
 doubled its channels and ignored changed quantisation

---
 libs/core/ddmanager/ddmanager.cpp | 21 +++++++++++++++++----
 libs/core/ddmanager/ddmanager.h   |  3 ++-
 2 files changed, 19 insertions(+), 5 deletions(-)

diff --git a/libs/core/ddmanager/ddmanager.cpp b/libs/core/ddmanager/ddmanager.cpp
index 318b236..345bcb1 100644
--- a/libs/core/ddmanager/ddmanager.cpp
+++ b/libs/core/ddmanager/ddmanager.cpp
@@ -289,6 +289,12 @@ void CqDisplayRequest::LoadDisplayLibrary( SqDDMemberData& ddMemberData, CqSimpl
 	// First store the width and height, as this is the first time we know about them.
 	m_width = width;
 	m_height = height;
+
+	// The display may have been opened before, for another image.
+	m_valid = false;
+	m_flags.flags = 0;
+	m_formats.clear();
+	m_bufferMap.clear();
 	
 	// Init the driver file and type storage
 	CqString strDriverFile = "";
@@ -442,13 +448,11 @@ void CqDisplayRequest::LoadDisplayLibrary( SqDDMemberData& ddMemberData, CqSimpl
 					m_QuantizeOneVal = pQuant[0];
 					m_QuantizeMinVal = pQuant[1];
 					m_QuantizeMaxVal = pQuant[2];
-					m_QuantizeSpecified = true;
 				}
 
 				if ( pQuant && !m_QuantizeDitherSpecified)
 				{
 					m_QuantizeDitherVal = pQuant[3];
-					m_QuantizeDitherSpecified = true;
 				}
 			}
 
@@ -496,7 +500,6 @@ void CqDisplayRequest::LoadDisplayLibrary( SqDDMemberData& ddMemberData, CqSimpl
 					m_QuantizeOneVal = pQuant[0];
 					m_QuantizeMinVal = pQuant[1];
 					m_QuantizeMaxVal = pQuant[2];
-					m_QuantizeSpecified = true;
 				}
 				else if( !m_QuantizeSpecified)
 				{
@@ -508,7 +511,6 @@ void CqDisplayRequest::LoadDisplayLibrary( SqDDMemberData& ddMemberData, CqSimpl
 				if ( pQuant && !m_QuantizeDitherSpecified)
 				{
 					m_QuantizeDitherVal = pQuant[3];
-					m_QuantizeDitherSpecified = true;
 				}
 				else if(!m_QuantizeDitherSpecified)
 				{
@@ -911,6 +913,15 @@ void CqDisplayRequest::PrepareCustomParameters( std::map<std::string, void*>& ma
 
 void CqDisplayRequest::PrepareSystemParameters()
 {
+	// Replace the parameters of a previous image, if the display is opened again.
+	for( ; m_numSystemParams > 0; --m_numSystemParams )
+	{
+		free(m_customParams.back().name);
+		free(m_customParams.back().value);
+		m_customParams.pop_back();
+	}
+	size_t numUserParams = m_customParams.size();
+
 	// Fill in "standard" parameters that the renderer must supply
 	UserParameter parameter;
 
@@ -979,6 +990,8 @@ void CqDisplayRequest::PrepareSystemParameters()
 
 	ConstructStringsParameter("HostComputer", &HostComputer, 1, parameter);
 	m_customParams.push_back(parameter);
+
+	m_numSystemParams = m_customParams.size() - numUserParams;
 }
 
 namespace {
diff --git a/libs/core/ddmanager/ddmanager.h b/libs/core/ddmanager/ddmanager.h
index 6b721b1..4e529a6 100644
--- a/libs/core/ddmanager/ddmanager.h
+++ b/libs/core/ddmanager/ddmanager.h
@@ -101,7 +101,7 @@ class CqDisplayRequest : public IqDisplayRequest
 				m_modeHash(modeHash), m_modeID(modeID), m_AOVOffset(dataOffset),
 				m_AOVSize(dataSize), m_QuantizeZeroVal(quantizeZeroVal), m_QuantizeOneVal(quantizeOneVal),
 				m_QuantizeMinVal(quantizeMinVal), m_QuantizeMaxVal(quantizeMaxVal), m_QuantizeDitherVal(quantizeDitherVal), m_QuantizeSpecified(quantizeSpecified), m_QuantizeDitherSpecified(quantizeDitherSpecified),
-				m_DriverHandle(0), m_imageHandle(0), m_OpenMethod(0), m_QueryMethod(0),
+				m_numSystemParams(0), m_DriverHandle(0), m_imageHandle(0), m_OpenMethod(0), m_QueryMethod(0),
 				m_DataMethod(0), m_CloseMethod(0), m_DelayCloseMethod(0),
 				m_isLoaded(false), m_DataRow(0), m_DataBucket(0)
 		{
@@ -166,6 +166,7 @@ class CqDisplayRequest : public IqDisplayRequest
 		TqInt			m_width;
 		TqInt			m_height;
 		std::vector<UserParameter> m_customParams;
+		size_t			m_numSystemParams;   // How many of m_customParams were supplied by the renderer
 		void*			m_DriverHandle;
 		PtDspyImageHandle m_imageHandle;
 		PtFlagStuff		m_flags;
-- 
2.43.0


From 1c2cd4aca10160f9e249f91d872b8adbf0985f3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:18:24 +0000
Subject: [PATCH 19/78] fix: the variables needed by the displays were those of
 the first frame's displays only

---
 libs/core/ddmanager/ddmanager.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/libs/core/ddmanager/ddmanager.cpp b/libs/core/ddmanager/ddmanager.cpp
index 345bcb1..e094d3a 100644
--- a/libs/core/ddmanager/ddmanager.cpp
+++ b/libs/core/ddmanager/ddmanager.cpp
@@ -65,6 +65,9 @@ SqDDMemberData CqDDManager::m_MemberData("DspyImageOpen", "DspyImageQuery",
 
 TqInt CqDDManager::AddDisplay( const TqChar* name, const TqChar* type, const TqChar* mode, TqInt modeID, TqInt dataOffset, TqInt dataSize, std::map<std::string, void*> mapOfArguments )
 {
+	// The cached set of variables needed is out of date now.
+	m_Uses = 0;
+
 	/// \todo The shared_ptr should be declared before the if-else block and initialized inside,
 	// then the last 2 lines in the if-else blocks should follow afterward. I couldn't figure out
 	// how to declare the boost pointer separately from its initialization.
@@ -113,6 +116,7 @@ CqDisplayRequest::~CqDisplayRequest()
 TqInt CqDDManager::ClearDisplays()
 {
 	m_displayRequests.clear();
+	m_Uses = 0;
 	return ( 0 );
 }
 
-- 
2.43.0


From bc50689e744623f44f3a7e60d8d0c688d26ccddf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:18:24 +0000
Subject: [PATCH 20/78] fix: a display requested before the first frame was
 lost after it

---
 libs/core/api/ri.cpp              |  3 ++-
 libs/core/ddmanager/ddmanager.cpp | 15 +++++++++++++++
 libs/core/ddmanager/ddmanager.h   |  3 +++
 libs/core/ddmanager/iddmanager.h  |  6 ++++++
 libs/core/renderer.cpp            | 12 ++++++++++++
 libs/core/renderer.h              |  2 ++
 6 files changed, 40 insertions(+), 1 deletion(-)

diff --git a/libs/core/api/ri.cpp b/libs/core/api/ri.cpp
index 0b1833e..fbb5673 100644
--- a/libs/core/api/ri.cpp
+++ b/libs/core/api/ri.cpp
@@ -550,6 +550,7 @@ RtVoid RiCxxCore::FrameBegin(RtInt number)
 	AQSIS_TIMER_START(Frame);
 
 	QGetRenderContext() ->BeginFrameModeBlock();
+	QGetRenderContext() ->SaveDisplayRequests();
 	QGetRenderContext() ->SetCurrentFrame( number );
 	CqCSGTreeNode::SetRequired( false );
 
@@ -567,7 +568,7 @@ RtVoid RiCxxCore::FrameBegin(RtInt number)
 RtVoid RiCxxCore::FrameEnd()
 {
 	QGetRenderContext() ->EndFrameModeBlock();
-	QGetRenderContext() ->ClearDisplayRequests();
+	QGetRenderContext() ->RestoreDisplayRequests();
 }
 
 //----------------------------------------------------------------------
diff --git a/libs/core/ddmanager/ddmanager.cpp b/libs/core/ddmanager/ddmanager.cpp
index e094d3a..1bcba88 100644
--- a/libs/core/ddmanager/ddmanager.cpp
+++ b/libs/core/ddmanager/ddmanager.cpp
@@ -120,6 +120,21 @@ TqInt CqDDManager::ClearDisplays()
 	return ( 0 );
 }
 
+void CqDDManager::SaveDisplays()
+{
+	m_savedRequests.push_back(m_displayRequests);
+}
+
+void CqDDManager::RestoreDisplays()
+{
+	ClearDisplays();
+	if(!m_savedRequests.empty())
+	{
+		m_displayRequests = m_savedRequests.back();
+		m_savedRequests.pop_back();
+	}
+}
+
 TqInt CqDDManager::OpenDisplays(TqInt width, TqInt height)
 {
 	// Now go over any requested displays launching the clients.
diff --git a/libs/core/ddmanager/ddmanager.h b/libs/core/ddmanager/ddmanager.h
index 4e529a6..c938791 100644
--- a/libs/core/ddmanager/ddmanager.h
+++ b/libs/core/ddmanager/ddmanager.h
@@ -263,6 +263,8 @@ class CqDDManager : public IqDDManager
 
 		virtual	TqInt	AddDisplay( const TqChar* name, const TqChar* type, const TqChar* mode, TqInt modeID, TqInt dataOffset, TqInt dataSize, std::map<std::string, void*> mapOfArguments );
 		virtual	TqInt	ClearDisplays();
+		virtual	void	SaveDisplays();
+		virtual	void	RestoreDisplays();
 		virtual	TqInt	OpenDisplays(TqInt width, TqInt height);
 		virtual	TqInt	CloseDisplays();
 		virtual	TqInt	DisplayBucket( const CqRegion& DRegion, const IqChannelBuffer* pBucket );
@@ -272,6 +274,7 @@ class CqDDManager : public IqDDManager
 	private:
 		std::string	GetStringField( const std::string& s, int idx );
 		std::vector< boost::shared_ptr<CqDisplayRequest> > m_displayRequests; ///< Array of requested display drivers.
+		std::vector< std::vector< boost::shared_ptr<CqDisplayRequest> > > m_savedRequests; ///< Stack of saved display requests.
 		static SqDDMemberData m_MemberData;
 		CqSimplePlugin m_DspyPlugin;
 		TqInt 	m_Uses;
diff --git a/libs/core/ddmanager/iddmanager.h b/libs/core/ddmanager/iddmanager.h
index 45fe9c7..26096dd 100644
--- a/libs/core/ddmanager/iddmanager.h
+++ b/libs/core/ddmanager/iddmanager.h
@@ -88,6 +88,12 @@ public:
 	/** Clear all display requests from the managers list.
 	 */
 	virtual	TqInt	ClearDisplays() = 0;
+	/** Save a copy of the list of display requests.
+	 */
+	virtual	void	SaveDisplays() = 0;
+	/** Restore the list of display requests saved last.
+	 */
+	virtual	void	RestoreDisplays() = 0;
 	/** Open all displays in the managers list.
 	 */
 	virtual	TqInt	OpenDisplays(TqInt width, TqInt height) = 0;
diff --git a/libs/core/renderer.cpp b/libs/core/renderer.cpp
index 8d97e76..c37de60 100644
--- a/libs/core/renderer.cpp
+++ b/libs/core/renderer.cpp
@@ -1402,6 +1402,18 @@ void CqRenderer::ClearDisplayRequests()
 	m_pDDManager->ClearDisplays();
 }
 
+/** Save the list of requested display drivers, and restore the one saved last.
+ */
+void CqRenderer::SaveDisplayRequests()
+{
+	m_pDDManager->SaveDisplays();
+}
+
+void CqRenderer::RestoreDisplayRequests()
+{
+	m_pDDManager->RestoreDisplays();
+}
+
 
 void QSetRenderContext( CqRenderer* pRend )
 {
diff --git a/libs/core/renderer.h b/libs/core/renderer.h
index 42da935..036bb67 100644
--- a/libs/core/renderer.h
+++ b/libs/core/renderer.h
@@ -235,6 +235,8 @@ class CqRenderer : public IqRenderer
 
 		virtual	void	AddDisplayRequest( const TqChar* name, const TqChar* type, const TqChar* mode, TqInt modeID, TqInt dataOffset, TqInt dataSize, std::map<std::string, void*>& mapOfArguments );
 		virtual	void	ClearDisplayRequests();
+		virtual	void	SaveDisplayRequests();
+		virtual	void	RestoreDisplayRequests();
 		virtual	IqDDManager*	pDDmanager()
 		{
 			return ( m_pDDManager );
-- 
2.43.0


From 9d0a801470bf5981156f383cca2dbbe1229637b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:24:16 +0000
Subject: [PATCH 21/78] fix: output variables whose name starts with a, z or
 rgb were displayed as that channel

---
 libs/core/api/ri.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/libs/core/api/ri.cpp b/libs/core/api/ri.cpp
index fbb5673..ffbe29c 100644
--- a/libs/core/api/ri.cpp
+++ b/libs/core/api/ri.cpp
@@ -964,6 +964,14 @@ RtVoid RiCxxCore::Display(RtConstToken name, RtConstToken type, RtConstToken mod
 		dataSize += 1;
 		index += strlen( RI_Z );
 	}
+	// A longer name which only starts like one of the standard strings (such
+	// as "ambient" or "zdepth") names an arbitrary output variable.
+	if ( mode[index] != '\0' )
+	{
+		eValue = 0;
+		dataSize = 0;
+		index = 0;
+	}
 
 	// Special case test.
 	if(strncmp(&mode[index], "depth", strlen("depth") ) == 0 )
-- 
2.43.0


From 1b1395c5de6b50f747fadcd993776a815aea0f91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:24:16 +0000
Subject: [PATCH 22/78] fix: a display parameter of a type drivers do not
 support was passed on without a name

---
 libs/core/ddmanager/ddmanager.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/libs/core/ddmanager/ddmanager.cpp b/libs/core/ddmanager/ddmanager.cpp
index 1bcba88..b9d9c90 100644
--- a/libs/core/ddmanager/ddmanager.cpp
+++ b/libs/core/ddmanager/ddmanager.cpp
@@ -923,7 +923,9 @@ void CqDisplayRequest::PrepareCustomParameters( std::map<std::string, void*>& ma
 				}
 				break;
 				default:
-					break;
+					Aqsis::log() << error << "ignoring display parameter "
+								 << param->first << " of unsupported type" << std::endl;
+					continue;
 			}
 			m_customParams.push_back(parameter);
 		}
-- 
2.43.0


From af50d025092f7cc2784ea05528c99968a369d24c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:48:36 +0000
Subject: [PATCH 23/78] fix: CoordSysTransform kept the handedness of the
 transformation it replaced

---
 libs/core/transform.cpp | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/libs/core/transform.cpp b/libs/core/transform.cpp
index ad90e08..7330fc4 100644
--- a/libs/core/transform.cpp
+++ b/libs/core/transform.cpp
@@ -165,12 +165,18 @@ CqTransform& CqTransform::operator=( const CqTransform& From )
 
 void CqTransform::SetCurrentTransform( TqFloat time, const CqMatrix& matTrans )
 {
+	// The handedness is that of the new transformation and the camera, whatever
+	// it was before (see SetTransform).
 	TqFloat det = matTrans.Determinant();
 	bool flip = ( !matTrans.fIdentity() && det < 0 );
+	CqMatrix matCtoW;
+	QGetRenderContext()->matSpaceToSpace("world", "camera", NULL, NULL, QGetRenderContext()->Time(), matCtoW);
+	TqFloat camdet = matCtoW.Determinant();
+	bool camhand = ( !matCtoW.fIdentity() && camdet < 0 );
 
 	SqTransformation ct;
 	ct.m_matTransform = matTrans;
-	ct.m_Handedness = !flip;
+	ct.m_Handedness = (flip)? !camhand : camhand;
 
 	if ( QGetRenderContext() ->pconCurrent() ->fMotionBlock() )
 	{
@@ -186,9 +192,7 @@ void CqTransform::SetCurrentTransform( TqFloat time, const CqMatrix& matTrans )
 		else
 		{
 			m_StaticMatrix = matTrans;
-			m_Handedness = (flip)? !m_Handedness : m_Handedness;
-			//m_Handedness = flip;
-			ct.m_Handedness = flip;
+			m_Handedness = ct.m_Handedness;
 			SetDefaultObject( ct );
 		}
 	}
-- 
2.43.0


From fb68ae2b3db1f8f0b3ddb22790762fa455c24346 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:21:23 +0000
Subject: [PATCH 24/78] fix: the logical not operator compiled to an
 instruction that does not exist

---
 libs/slcomp/backend/vmoutput.cpp | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/libs/slcomp/backend/vmoutput.cpp b/libs/slcomp/backend/vmoutput.cpp
index d8cccbe..2425caf 100644
--- a/libs/slcomp/backend/vmoutput.cpp
+++ b/libs/slcomp/backend/vmoutput.cpp
@@ -449,7 +449,16 @@ void CqCodeGenOutput::Visit( IqParseNodeUnaryOp& OP )
 {
 	IqParseNodeOperator * pOp;
 	pOp = static_cast<IqParseNodeOperator*>(OP.GetInterface( ParseNode_Operator ));
-	Visit( *pOp );
+	if ( pOp->Operator() == Op_LogicalNot )
+	{
+		// The virtual machine has no logical not, so compare with zero instead.
+		IqParseNode* pNode = static_cast<IqParseNode*>(OP.GetInterface( ParseNode_Base ));
+		pNode->pChild()->Accept( *this );
+		m_slxFile << "\tpushif 0" << std::endl;
+		m_slxFile << "\teqff" << std::endl;
+	}
+	else
+		Visit( *pOp );
 }
 
 void CqCodeGenOutput::Visit( IqParseNodeLogicalOp& OP )
-- 
2.43.0


From d9398fafc1f5a182506d1873f826da6bc2f2cab7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:35:22 +0000
Subject: [PATCH 25/78] fix: an array element passed to a function lost its
 index

---
 libs/slcomp/backend/vmoutput.cpp | 28 ++++++++++++++++++++++++++++
 libs/slcomp/parse/parsenode.h    |  5 +++++
 2 files changed, 33 insertions(+)

diff --git a/libs/slcomp/backend/vmoutput.cpp b/libs/slcomp/backend/vmoutput.cpp
index 2425caf..42b4273 100644
--- a/libs/slcomp/backend/vmoutput.cpp
+++ b/libs/slcomp/backend/vmoutput.cpp
@@ -219,7 +219,35 @@ void CqCodeGenOutput::Visit( IqParseNodeFunctionCall& FC )
 				pFunc->pDef() ->Accept( *this );
 				m_saTransTable.erase( m_saTransTable.end() - 1 );
 			}
+			// Array elements are passed by value: push the results of those that
+			// are output parameters...
+			std::vector<IqParseNode*> elements;
+			IqParseNode * pParam = pFunc->pArgs() ->pChild();
+			IqParseNode* pArg = pArguments;
+			while ( pParam != 0 )
+			{
+				IqVarDef* pParamDef = IqVarDef::GetVariablePtr( static_cast<IqParseNodeVariable*>( pParam->GetInterface( ParseNode_Variable ) )->VarRef() );
+				if ( ( pParamDef->Type() & Type_Output ) && pArg->NodeType() == ParseNode_ArrayVariable && !pArg->IsVariableRef() )
+				{
+					pParam->Accept( *this );
+					elements.push_back( pArg );
+				}
+				pParam = pParam->pNextSibling();
+				pArg = pArg->pNextSibling();
+			}
 			m_StackVarMap.pop_back( );
+			// ...and pop them into the elements.
+			while ( !elements.empty() )
+			{
+				elements.back()->pChild()->Accept( *this );
+				m_slxFile << "\tipop ";
+				SqVarRef temp( static_cast<IqParseNodeVariable*>( elements.back()->GetInterface( ParseNode_Variable ) )->VarRef() );
+				IqVarDef* pVD = pTranslatedVariable( temp, m_saTransTable );
+				pVD->IncUseCount();
+				std::string* strTempName = FindTemporaryVariable( pVD->strName(), m_StackVarMap );
+				m_slxFile << ( strTempName ? strTempName->c_str() : pVD->strName() ) << std::endl;
+				elements.pop_back();
+			}
 		}
 		else
 		{
diff --git a/libs/slcomp/parse/parsenode.h b/libs/slcomp/parse/parsenode.h
index 74c342e..98c9928 100644
--- a/libs/slcomp/parse/parsenode.h
+++ b/libs/slcomp/parse/parsenode.h
@@ -578,6 +578,11 @@ class CqParseNodeVariableArray : public CqParseNodeVariable, public IqParseNodeA
 
 
 
+		/// A single element is not a reference to the variable, which is the whole array.
+		virtual	bool	IsVariableRef() const
+		{
+			return ( m_pChild == 0 );
+		}
 		virtual	void*	GetInterface( EqParseNodeType type) const
 		{
 			void* pNode;
-- 
2.43.0


From 19c6af67bf40d4c4f3266b1018b4f384bb6620da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:35:22 +0000
Subject: [PATCH 26/78] fix: conditional and overloaded operands of operators
 were typed as the first overload or the condition

---
 libs/slcomp/parse/parsenode.h   |  9 +++++++++
 libs/slcomp/parse/typecheck.cpp | 27 +++++++++++++++++++++++----
 2 files changed, 32 insertions(+), 4 deletions(-)

diff --git a/libs/slcomp/parse/parsenode.h b/libs/slcomp/parse/parsenode.h
index 98c9928..9a3e2ba 100644
--- a/libs/slcomp/parse/parsenode.h
+++ b/libs/slcomp/parse/parsenode.h
@@ -1684,6 +1684,15 @@ class CqParseNodeQCond : public CqParseNode, public IqParseNodeConditionalExpres
 		}
 
 
+		// The type is that of the alternatives, not that of the condition.
+		virtual	TqInt	ResType() const
+		{
+			return ( m_pChild->pNext()->ResType() );
+		}
+		virtual	void	validTypes( std::list<std::pair<TqInt, TqInt> >& types)
+		{
+			m_pChild->pNext()->validTypes( types );
+		}
 		virtual	TqInt	TypeCheck( TqInt* pTypes, TqInt Count, bool& needsCast, bool CheckOnly );
 		virtual	CqParseNode*	Clone( CqParseNode* pParent = 0 )
 		{
diff --git a/libs/slcomp/parse/typecheck.cpp b/libs/slcomp/parse/typecheck.cpp
index 3b2ff6f..b1a406d 100644
--- a/libs/slcomp/parse/typecheck.cpp
+++ b/libs/slcomp/parse/typecheck.cpp
@@ -547,6 +547,25 @@ TqInt	CqParseNodeAssignArray::TypeCheck( TqInt* pTypes, TqInt Count,  bool& need
 }
 
 
+///---------------------------------------------------------------------
+/// The preferred type of an expression. ResType() is not enough, as it is arbitrary
+/// for an overloaded function or operator which has not been resolved yet.
+
+static TqInt preferredType( CqParseNode& node )
+{
+	std::list<std::pair<TqInt, TqInt> > types;
+	node.validTypes( types );
+	TqInt type = node.ResType(), weight = 0;
+	for ( std::list<std::pair<TqInt, TqInt> >::const_iterator i = types.begin(); i != types.end(); ++i )
+		if ( i->second > weight )
+		{
+			type = i->first;
+			weight = i->second;
+		}
+	return ( type & Type_Mask );
+}
+
+
 ///---------------------------------------------------------------------
 /// CqParseNodeOp::TypeCheck
 /// Do a type check based on suitable types requested, and add a cast in required.
@@ -557,8 +576,8 @@ TqInt	CqParseNodeOp::TypeCheck( TqInt* pTypes, TqInt Count,  bool& needsCast, bo
 	CqParseNode * pOperandA = m_pChild;
 	CqParseNode* pOperandB = m_pChild->pNext();
 	assert( pOperandA != 0 && pOperandB != 0 );
-	TqInt TypeA = ( pOperandA->ResType() & Type_Mask );
-	TqInt TypeB = ( pOperandB->ResType() & Type_Mask );
+	TqInt TypeA = preferredType( *pOperandA );
+	TqInt TypeB = preferredType( *pOperandB );
 
 	// See if they can both be cast to a requested type.
 	TqInt i;
@@ -922,8 +941,8 @@ TqInt	CqParseNodeQCond::TypeCheck( TqInt* pTypes, TqInt Count,  bool& needsCast,
 	CqParseNode* pFalse = pTrue->pNext();
 	assert( pFalse != 0 );
 
-	TqInt TypeT = ( pTrue->ResType() & Type_Mask );
-	TqInt TypeF = ( pFalse->ResType() & Type_Mask );
+	TqInt TypeT = preferredType( *pTrue );
+	TqInt TypeF = preferredType( *pFalse );
 
 	// See if they can both be cast to a requested type.
 	TqInt i;
-- 
2.43.0


From bc4bb764e7a792ab09dbe85cc19920b70dbced84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:35:22 +0000
Subject: [PATCH 27/78] fix: vtransform and ntransform with a matrix
 transformed like points

---
 libs/shadervm/shaderexecenv/shadeops_matrx.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/libs/shadervm/shaderexecenv/shadeops_matrx.cpp b/libs/shadervm/shaderexecenv/shadeops_matrx.cpp
index 25e0c5a..24b1a4a 100644
--- a/libs/shadervm/shaderexecenv/shadeops_matrx.cpp
+++ b/libs/shadervm/shaderexecenv/shadeops_matrx.cpp
@@ -294,7 +294,7 @@ void CqShaderExecEnv::SO_vtransformm( IqShaderData* tospace, IqShaderData* p, Iq
 			(tospace)->GetMatrix(_aq_tospace,__iGrid);
 			CqVector3D _aq_p;
 			(p)->GetVector(_aq_p,__iGrid);
-			(Result)->SetVector(_aq_tospace * _aq_p,__iGrid);
+			(Result)->SetVector(vectorTransform(_aq_tospace) * _aq_p,__iGrid);
 		}
 	}
 	while( ( ++__iGrid < shadingPointCount() ) && __fVarying);
@@ -429,7 +429,7 @@ void CqShaderExecEnv::SO_ntransformm( IqShaderData* tospace, IqShaderData* p, Iq
 			(tospace)->GetMatrix(_aq_tospace,__iGrid);
 			CqVector3D _aq_p;
 			(p)->GetNormal(_aq_p,__iGrid);
-			(Result)->SetNormal(_aq_tospace * _aq_p,__iGrid);
+			(Result)->SetNormal(normalTransform(_aq_tospace) * _aq_p,__iGrid);
 		}
 	}
 	while( ( ++__iGrid < shadingPointCount() ) && __fVarying);
-- 
2.43.0


From f9620d21f38933cd06cbc0d38edcb908a902a7e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:35:22 +0000
Subject: [PATCH 28/78] fix: matrix valued conditional expressions compiled to
 an instruction that does not exist

---
 libs/shadervm/shadervm.cpp  |  1 +
 libs/shadervm/shadervm.h    |  1 +
 libs/shadervm/shadervm1.cpp | 31 +++++++++++++++++++++++++++++++
 3 files changed, 33 insertions(+)

diff --git a/libs/shadervm/shadervm.cpp b/libs/shadervm/shadervm.cpp
index 35ee5b1..0ffc521 100644
--- a/libs/shadervm/shadervm.cpp
+++ b/libs/shadervm/shadervm.cpp
@@ -115,6 +115,7 @@ SqOpCodeTrans CqShaderVM::m_TransTable[] =
         {"mergen", 0, &CqShaderVM::SO_mergep, 0, {0}},
         {"mergev", 0, &CqShaderVM::SO_mergep, 0, {0}},
         {"mergec", 0, &CqShaderVM::SO_mergec, 0, {0}},
+        {"mergem", 0, &CqShaderVM::SO_mergem, 0, {0}},
 
         {"pushif", 0, &CqShaderVM::SO_pushif, 1, {type_float}},
         {"puship", 0, &CqShaderVM::SO_puship, 3, {type_float, type_float, type_float}},
diff --git a/libs/shadervm/shadervm.h b/libs/shadervm/shadervm.h
index 8760a98..e376684 100644
--- a/libs/shadervm/shadervm.h
+++ b/libs/shadervm/shadervm.h
@@ -411,6 +411,7 @@ class AQSIS_SHADERVM_SHARE CqShaderVM : public CqShaderStack, public IqShader, p
 		void	SO_merges();
 		void	SO_mergep();
 		void	SO_mergec();
+		void	SO_mergem();
 		void	SO_setfc();
 		void	SO_setfp();
 		void	SO_setfm();
diff --git a/libs/shadervm/shadervm1.cpp b/libs/shadervm/shadervm1.cpp
index f7db1ff..3d959b8 100644
--- a/libs/shadervm/shadervm1.cpp
+++ b/libs/shadervm/shadervm1.cpp
@@ -310,6 +310,37 @@ void CqShaderVM::SO_mergec()
 	RELEASE( F );
 }
 
+void CqShaderVM::SO_mergem()
+{
+	// Get the current state from the current stack entry
+	AUTOFUNC;
+	POPV( F );	// False statement
+	POPV( T );	// True statement
+	POPV( A );	// Relational result
+	RESULT(type_matrix, class_varying);
+	if(m_pEnv->IsRunning())
+	{
+		TqInt i;
+		TqInt ext = m_pEnv->shadingPointCount();
+		for ( i = 0; i < ext; i++ )
+		{
+			bool _aq_A;
+			CqMatrix _aq_T, _aq_F;
+			A->GetBool( _aq_A, i );
+			T->GetMatrix( _aq_T, i );
+			F->GetMatrix( _aq_F, i );
+			if ( _aq_A )
+				pResult->SetValue( _aq_T, i );
+			else
+				pResult->SetValue( _aq_F, i );
+		}
+	}
+	Push( pResult );
+	RELEASE( A );
+	RELEASE( T );
+	RELEASE( F );
+}
+
 void CqShaderVM::SO_setfc()
 {
 	AUTOFUNC;
-- 
2.43.0


From d6218e6bdcc91ae03ccc9bd1027444a124ceb4a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:41:55 +0000
Subject: [PATCH 29/78] fix: a light defined before the world whose handle was
 redefined aborted the render

Attributes only held weak references to their lights, so a light replaced in the
handle map was destroyed while attributes still used it.
---
 libs/core/attributes.cpp |  2 +-
 libs/core/attributes.h   | 20 ++++++++++----------
 2 files changed, 11 insertions(+), 11 deletions(-)

diff --git a/libs/core/attributes.cpp b/libs/core/attributes.cpp
index 175fa3f..1062041 100644
--- a/libs/core/attributes.cpp
+++ b/libs/core/attributes.cpp
@@ -510,7 +510,7 @@ const CqMatrix* CqAttributes::GetMatrixAttribute( const char* strName, const cha
 
 IqLightsource*	CqAttributes::pLight( TqInt index ) const
 {
-	return ( boost::shared_ptr<CqLightsource>(m_apLightsources[index]).get() );
+	return ( m_apLightsources[index].get() );
 }
 
 //---------------------------------------------------------------------
diff --git a/libs/core/attributes.h b/libs/core/attributes.h
index 22d17ae..2c9ebe1 100644
--- a/libs/core/attributes.h
+++ b/libs/core/attributes.h
@@ -32,7 +32,7 @@
 #include	<list>
 #include	<map>
 
-#include	<boost/weak_ptr.hpp>
+#include	<boost/shared_ptr.hpp>
 #include	<boost/enable_shared_from_this.hpp>
 
 #include	<aqsis/aqsis.h>
@@ -128,13 +128,13 @@ class CqAttributes : public IqAttributes, public boost::enable_shared_from_this<
 		void AddLightsource( const boost::shared_ptr<CqLightsource>& pL )
 		{
 			// Check if the ligthsource is already active
-			std::vector<boost::weak_ptr<CqLightsource> >::iterator end = m_apLightsources.end();
-			for ( std::vector<boost::weak_ptr<CqLightsource> >::iterator i = m_apLightsources.begin(); i != end; i++ )
+			std::vector<boost::shared_ptr<CqLightsource> >::iterator end = m_apLightsources.end();
+			for ( std::vector<boost::shared_ptr<CqLightsource> >::iterator i = m_apLightsources.begin(); i != end; i++ )
 			{
-				if ( boost::shared_ptr<CqLightsource>(*i) == pL )
+				if ( *i == pL )
 					return ;
 			}
-			m_apLightsources.push_back( boost::weak_ptr<CqLightsource>(pL) );
+			m_apLightsources.push_back( pL );
 		}
 		/** Remove a lightsource from the current available list.
 		 * \param pL a pointer to the lightsource to remove.
@@ -142,10 +142,10 @@ class CqAttributes : public IqAttributes, public boost::enable_shared_from_this<
 		void RemoveLightsource( const boost::shared_ptr<CqLightsource>& pL )
 		{
 			// Check if the ligthsource is in the active list.
-			std::vector<boost::weak_ptr<CqLightsource> >::iterator end = m_apLightsources.end();
-			for ( std::vector<boost::weak_ptr<CqLightsource> >::iterator i = m_apLightsources.begin(); i != end; i++ )
+			std::vector<boost::shared_ptr<CqLightsource> >::iterator end = m_apLightsources.end();
+			for ( std::vector<boost::shared_ptr<CqLightsource> >::iterator i = m_apLightsources.begin(); i != end; i++ )
 			{
-				if ( boost::shared_ptr<CqLightsource>(*i) == pL )
+				if ( *i == pL )
 				{
 					m_apLightsources.erase( i );
 					return ;
@@ -155,7 +155,7 @@ class CqAttributes : public IqAttributes, public boost::enable_shared_from_this<
 		/** Get a reference to the lightsource list.
 		 * \return a reference to the vector of lightsource pointers.
 		 */
-		virtual const std::vector<boost::weak_ptr<CqLightsource> >& apLights() const
+		virtual const std::vector<boost::shared_ptr<CqLightsource> >& apLights() const
 		{
 			return ( m_apLightsources );
 		}
@@ -475,7 +475,7 @@ class CqAttributes : public IqAttributes, public boost::enable_shared_from_this<
 		boost::shared_ptr<IqShader> m_pshadExteriorVolume;          ///< a pointer to the current exterior shader.
 
 		CqTrimLoopArray m_TrimLoops;					///< the array of closed trimcurve loops.
-		std::vector<boost::weak_ptr<CqLightsource> > m_apLightsources;	///< a set of currently available lightsources.
+		std::vector<boost::shared_ptr<CqLightsource> > m_apLightsources;	///< a set of currently available lightsources.
 
 		std::list<CqAttributes*>::iterator	m_StackIterator;	///< the index of this attribute state in the global stack, used for destroying when last reference is removed.
 }
-- 
2.43.0


From dd4b1694692822bc935bcd614e9a588e7332b27e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:41:55 +0000
Subject: [PATCH 30/78] fix: the parameters of shaders set before the world
 were ignored

---
 libs/core/api/ri.cpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/libs/core/api/ri.cpp b/libs/core/api/ri.cpp
index ffbe29c..9686ac0 100644
--- a/libs/core/api/ri.cpp
+++ b/libs/core/api/ri.cpp
@@ -1346,6 +1346,10 @@ RtVoid RiCxxCore::Surface(RtConstToken name, const ParamList& pList)
 		// Execute the intiialisation code here, as we now have our shader context complete.
 		pshadSurface->PrepareDefArgs();
 		setShaderArguments(pshadSurface, pList);
+		// As for lights, the parameters of a shader defined outside the world are
+		// invariant under changes to the camera space, and are initialised here.
+		if(!QGetRenderContext()->IsWorldBegin())
+			pshadSurface->InitialiseParameters();
 
 		const TqInt* pMultipass = QGetRenderContext()->poptCurrent()->GetIntegerOption("Render", "multipass");
 		if(pMultipass && !pMultipass[0])
@@ -1371,6 +1375,10 @@ RtVoid RiCxxCore::Atmosphere(RtConstToken name, const ParamList& pList)
 		// Execute the intiialisation code here, as we now have our shader context complete.
 		pshadAtmosphere->PrepareDefArgs();
 		setShaderArguments(pshadAtmosphere, pList);
+		// As for lights, the parameters of a shader defined outside the world are
+		// invariant under changes to the camera space, and are initialised here.
+		if(!QGetRenderContext()->IsWorldBegin())
+			pshadAtmosphere->InitialiseParameters();
 		const TqInt* pMultipass = QGetRenderContext()->poptCurrent()->GetIntegerOption("Render", "multipass");
 		if(pMultipass && !pMultipass[0])
 			pshadAtmosphere->PrepareShaderForUse();
@@ -1695,6 +1703,10 @@ RtVoid RiCxxCore::Displacement(RtConstToken name, const ParamList& pList)
 		// Execute the intiialisation code here, as we now have our shader context complete.
 		pshadDisplacement->PrepareDefArgs();
 		setShaderArguments(pshadDisplacement, pList);
+		// As for lights, the parameters of a shader defined outside the world are
+		// invariant under changes to the camera space, and are initialised here.
+		if(!QGetRenderContext()->IsWorldBegin())
+			pshadDisplacement->InitialiseParameters();
 		const TqInt* pMultipass = QGetRenderContext()->poptCurrent()->GetIntegerOption("Render", "multipass");
 		if(pMultipass && !pMultipass[0])
 			pshadDisplacement->PrepareShaderForUse();
-- 
2.43.0


From f257923ec1e3e503d40b9ff386128d72e14e97ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:41:55 +0000
Subject: [PATCH 31/78] fix: lights defined between worlds were transformed by
 the previous world's camera

---
 libs/core/api/ri.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/libs/core/api/ri.cpp b/libs/core/api/ri.cpp
index 9686ac0..5adb6db 100644
--- a/libs/core/api/ri.cpp
+++ b/libs/core/api/ri.cpp
@@ -705,6 +705,8 @@ RtVoid RiCxxCore::WorldEnd()
 
 	// Delete the world context
 	QGetRenderContext() ->EndWorldModeBlock();
+	// There is no world to camera transformation outside the world.
+	QGetRenderContext() ->SetCameraTransform( CqTransformPtr( new CqTransform() ) );
 
 	// Stop the frame timer
 	AQSIS_TIMER_STOP(Frame);
-- 
2.43.0


From 72d3b4f6a358d205ef6413a2d4524ac337f88d67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:41:55 +0000
Subject: [PATCH 32/78] fix: diffuse and specular after illuminance at another
 point were lit at that point

---
 libs/shadervm/shaderexecenv/shadeops_illum.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/libs/shadervm/shaderexecenv/shadeops_illum.cpp b/libs/shadervm/shaderexecenv/shadeops_illum.cpp
index 68118f2..0fc6b1f 100644
--- a/libs/shadervm/shaderexecenv/shadeops_illum.cpp
+++ b/libs/shadervm/shaderexecenv/shadeops_illum.cpp
@@ -157,7 +157,8 @@ void CqShaderExecEnv::ValidateIlluminanceCache( IqShaderData* pP, IqShaderData*
 			lp->Evaluate( Ps, Ns, m_pCurrentSurface );
 			li++;
 		}
-		m_IlluminanceCacheValid = true;
+		// Only lights evaluated at the surface point itself can be used again.
+		m_IlluminanceCacheValid = ( Ps == P() );
 	}
 }
 
-- 
2.43.0


From 9806c6fe3960eb6e57c8eb786b389a5c3f9b4149 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:41:55 +0000
Subject: [PATCH 33/78] fix: __nondiffuse and __nonspecular were read from
 lights that do not have them

---
 libs/shadervm/shaderexecenv/shadeops_illum.cpp | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/libs/shadervm/shaderexecenv/shadeops_illum.cpp b/libs/shadervm/shaderexecenv/shadeops_illum.cpp
index 0fc6b1f..8a9840a 100644
--- a/libs/shadervm/shaderexecenv/shadeops_illum.cpp
+++ b/libs/shadervm/shaderexecenv/shadeops_illum.cpp
@@ -463,10 +463,9 @@ void CqShaderExecEnv::SO_diffuse( IqShaderData* N, IqShaderData* Result, IqShade
 				pLightsource = m_pAttributes ->pLight( m_li ) ->pShader();
 			if ( pLightsource )
 			{
-				pLightsource->GetVariableValue( "__nondiffuse", __nondiffuse );
 				/// \note: This is OK here, outside the BEGIN_VARYING_SECTION as, varying in terms of lightsources
 				/// is not valid.
-				if( NULL != __nondiffuse )
+				if( NULL != __nondiffuse && pLightsource->GetVariableValue( "__nondiffuse", __nondiffuse ) )
 				{
 					__nondiffuse->GetFloat( __nondiffuse_val, 0 );
 					if( __nondiffuse_val != 0.0f )
@@ -551,10 +550,9 @@ void CqShaderExecEnv::SO_specular( IqShaderData* N, IqShaderData* V, IqShaderDat
 				pLightsource = m_pAttributes ->pLight( m_li ) ->pShader();
 			if ( pLightsource )
 			{
-				pLightsource->GetVariableValue( "__nonspecular", __nonspecular );
 				/// \note: This is OK here, outside the BEGIN_VARYING_SECTION as, varying in terms of lightsources
 				/// is not valid.
-				if( NULL != __nonspecular )
+				if( NULL != __nonspecular && pLightsource->GetVariableValue( "__nonspecular", __nonspecular ) )
 				{
 					__nonspecular->GetFloat( __nonspecular_val, 0 );
 					if( __nonspecular_val != 0.0f )
-- 
2.43.0


From 31684e5fcfa711497ffd9f4efdb89c8f1c036d6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:41:55 +0000
Subject: [PATCH 34/78] fix: only the first and last light categories were
 matched, and excluded categories never executed

---
 libs/shadervm/shaderexecenv/shadeops_illum.cpp | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/libs/shadervm/shaderexecenv/shadeops_illum.cpp b/libs/shadervm/shaderexecenv/shadeops_illum.cpp
index 8a9840a..4de14bf 100644
--- a/libs/shadervm/shaderexecenv/shadeops_illum.cpp
+++ b/libs/shadervm/shaderexecenv/shadeops_illum.cpp
@@ -782,26 +782,26 @@ void CqShaderExecEnv::SO_illuminance( IqShaderData* Category, IqShaderData* P, I
 			{
 				pcats->GetString( lightcategories );
 
-				exec = false;
 				// While no matching category has been found...
+				bool found = false;
 				CqString::size_type tokenpos = 0, tokenend;
 				while( 1 )
 				{
 					tokenend = lightcategories.find(',', tokenpos);
-					CqString token = lightcategories.substr( tokenpos, tokenend );
+					CqString token = ( tokenend == std::string::npos ) ?
+						lightcategories.substr( tokenpos ) :
+						lightcategories.substr( tokenpos, tokenend - tokenpos );
 					if( catname.compare( token ) == 0 )
 					{
-						if( !exclude )
-						{
-							exec = true;
-							break;
-						}
+						found = true;
+						break;
 					}
 					if( tokenend == std::string::npos )
 						break;
 					else
 						tokenpos = tokenend+1;
 				}
+				exec = ( found != exclude );
 			}
 		}
 
-- 
2.43.0


From 89b3f46725c2c8489f6314bd3a8a8aca1f0c63b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:41:55 +0000
Subject: [PATCH 35/78] fix: the axis of illuminance and illuminate had to be
 of unit length

---
 libs/shadervm/shaderexecenv/shadeops_illum.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/libs/shadervm/shaderexecenv/shadeops_illum.cpp b/libs/shadervm/shaderexecenv/shadeops_illum.cpp
index 4de14bf..a55fd6a 100644
--- a/libs/shadervm/shaderexecenv/shadeops_illum.cpp
+++ b/libs/shadervm/shaderexecenv/shadeops_illum.cpp
@@ -829,6 +829,7 @@ void CqShaderExecEnv::SO_illuminance( IqShaderData* Category, IqShaderData* P, I
 					CqVector3D vecAxis( 0, 1, 0 );
 					if ( NULL != Axis )
 						Axis->GetVector( vecAxis, __iGrid );
+					vecAxis.Unit();
 					TqFloat fAngle = M_PI;
 					if ( NULL != Angle )
 						Angle->GetFloat( fAngle, __iGrid );
@@ -888,6 +889,7 @@ void CqShaderExecEnv::SO_illuminate( IqShaderData* P, IqShaderData* Axis, IqShad
 				CqVector3D vecAxis( 0.0f, 1.0f, 0.0f );
 				if ( NULL != Axis )
 					Axis->GetVector( vecAxis, __iGrid );
+				vecAxis.Unit();
 				TqFloat fAngle = M_PI;
 				if ( NULL != Angle )
 					Angle->GetFloat( fAngle, __iGrid );
-- 
2.43.0


From 19b026f4b28339b370a0e211174dfbc976500d68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:41:55 +0000
Subject: [PATCH 36/78] fix: break and continue inside illuminance compiled to
 a corrupt program

---
 libs/slcomp/backend/vmoutput.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/libs/slcomp/backend/vmoutput.cpp b/libs/slcomp/backend/vmoutput.cpp
index 42b4273..0edaf97 100644
--- a/libs/slcomp/backend/vmoutput.cpp
+++ b/libs/slcomp/backend/vmoutput.cpp
@@ -630,6 +630,11 @@ void CqCodeGenOutput::Visit( IqParseNodeIlluminanceConstruct& IC )
 	IqParseNode* pStmt = pArg->pNextSibling();
 	assert( pStmt != 0 );
 
+	rsPush();										// push running state
+	// Mark current RS stack depth so that break/continue will know where to
+	// jump to.
+	m_breakDepthStack.push_back(0);
+
 	// The last child of the arg node is the Point to be illuminated, see Parser.y for confirmation.
 	IqParseNode* pInitArg = pArg->pChild();
 	while ( pInitArg->pNextSibling() != 0 )
@@ -663,9 +668,12 @@ void CqCodeGenOutput::Visit( IqParseNodeIlluminanceConstruct& IC )
 	pStmt->Accept( *this );							// statement
 	rsPop();										// pop the running state
 	m_slxFile << ":" << iLabelC << std::endl;		// continuation label
+	m_slxFile << "\tRS_JZ " << iLabelB << std::endl;	// stop if every point left the loop
 	m_slxFile << "\tadvance_illuminance" << std::endl;
 	m_slxFile << "\tjnz " << iLabelA << std::endl; // loop back jump
 	m_slxFile << ":" << iLabelB << std::endl;		// completion label
+	m_breakDepthStack.pop_back();
+	rsPop();										// pop the running state
 }
 
 void CqCodeGenOutput::Visit( IqParseNodeSolarConstruct& SC )
-- 
2.43.0


From 967327a1a544d94cdbc5e30249f9650a9cc16c11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:41:55 +0000
Subject: [PATCH 37/78] fix: solids around the eye were not resolved as entered

---
 libs/core/csgtree.cpp | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/libs/core/csgtree.cpp b/libs/core/csgtree.cpp
index 42ff124..1cecd93 100644
--- a/libs/core/csgtree.cpp
+++ b/libs/core/csgtree.cpp
@@ -197,11 +197,7 @@ void CqCSGTreeNode::ProcessSampleList( std::vector<SqImageSample>& samples )
 	{
 		if ( ( aChildIndex[j] = isChild( i->csgNode.get() ) ) >= 0 )
 		{
-			if ( ((i->csgNode.get())->NodeType() == CSGNodeType_Primitive ) &&
-			        ((i->csgNode.get())->NodeType() == CSGNodeType_Union ) )
-			{
-				abChildState[ aChildIndex[j] ] = !abChildState[ aChildIndex[j] ];
-			}
+			abChildState[ aChildIndex[j] ] = !abChildState[ aChildIndex[j] ];
 		}
 	}
 
-- 
2.43.0


From 8af55b030dd2a2c19713e8d211b40cd05320f2c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:41:55 +0000
Subject: [PATCH 38/78] fix: polygons of a PointsPolygons were culled although
 part of a solid

---
 libs/core/geometry/polygon.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/libs/core/geometry/polygon.cpp b/libs/core/geometry/polygon.cpp
index 3da1f3b..24657ca 100644
--- a/libs/core/geometry/polygon.cpp
+++ b/libs/core/geometry/polygon.cpp
@@ -535,6 +535,8 @@ TqInt CqSurfacePointsPolygons::Split( std::vector<boost::shared_ptr<CqSurface> >
 	{
 		// Create a surface polygon
 		boost::shared_ptr<CqSurfacePointsPolygon> pSurface( new CqSurfacePointsPolygon( m_pPoints, poly, iP ) );
+		// The context current at the time of the split is not the one the polygons were defined in.
+		pSurface->SetSurfaceParameters( *m_pPoints );
 		RtBoolean fValid = RI_TRUE;
 
 		pSurface->aIndices().resize( m_PointCounts[ poly ] );
-- 
2.43.0


From bfd46f8fa99f5f2d3c7a28bab278236396f42b5e Mon Sep 17 00:00:00 2001
From: vf <vf@x>
Date: Wed, 18 Nov 2026 07:10:18 +0000
Subject: [PATCH 39/78] fix: every patch of a mesh gets its own value of a
 uniform primitive variable

---
 libs/core/geometry/patch.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/libs/core/geometry/patch.cpp b/libs/core/geometry/patch.cpp
index 5dcbd14..1d4b4f4 100644
--- a/libs/core/geometry/patch.cpp
+++ b/libs/core/geometry/patch.cpp
@@ -1053,7 +1053,7 @@ void CqSurfacePatchMeshBicubic::SplitInternally()
 					// Copy any 'uniform' class primitive variables.
 					CqParameter * pNewUP = ( *iUP ) ->CloneType( ( *iUP ) ->strName().c_str(), ( *iUP ) ->Count() );
 					pNewUP->SetSize( pSurface->cUniform() );
-					pNewUP->SetValue( ( *iUP ), 0, j );
+					pNewUP->SetValue( ( *iUP ), 0, i * m_uPatches + j );
 					pSurface->AddPrimitiveVariable( pNewUP );
 				}
 				else if ( ( *iUP ) ->Class() == class_constant )
@@ -1268,7 +1268,7 @@ TqInt CqSurfacePatchMeshBilinear::Split( std::vector<boost::shared_ptr<CqSurface
 					// Copy any 'uniform' class primitive variables.
 					CqParameter * pNewUP = ( *iUP ) ->CloneType( ( *iUP ) ->strName().c_str(), ( *iUP ) ->Count() );
 					pNewUP->SetSize( pSurface->cUniform() );
-					pNewUP->SetValue( ( *iUP ), 0, j );
+					pNewUP->SetValue( ( *iUP ), 0, i * m_uPatches + j );
 					pSurface->AddPrimitiveVariable( pNewUP );
 				}
 				else if ( ( *iUP ) ->Class() == class_constant )
-- 
2.43.0


From 06dd96ca7e57ea0c49468a1044a8a3dbe71d612c Mon Sep 17 00:00:00 2001
From: vf <vf@x>
Date: Wed, 18 Nov 2026 07:10:18 +0000
Subject: [PATCH 40/78] fix: bicubic patches in the hermite and power bases are
 polynomial, not rational

---
 libs/core/geometry/patch.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/libs/core/geometry/patch.cpp b/libs/core/geometry/patch.cpp
index 1d4b4f4..8d7b7f0 100644
--- a/libs/core/geometry/patch.cpp
+++ b/libs/core/geometry/patch.cpp
@@ -460,6 +460,7 @@ void CqSurfacePatchBicubic::ConvertToBezierBasis( CqMatrix& matuBasis, CqMatrix&
 
 						// Store the data into a matrix for conversion.
 						CqMatrix matCPx, matCPy, matCPz, matCPh;
+						bool isRational = false;
 						for ( i = 0; i < 4; i++ )
 						{
 							for ( j = 0; j < 4; j++ )
@@ -468,6 +469,7 @@ void CqSurfacePatchBicubic::ConvertToBezierBasis( CqMatrix& matuBasis, CqMatrix&
 								matCPy[ i ][ j ] = pParam->pValue( i*4 + j )[0][1];
 								matCPz[ i ][ j ] = pParam->pValue( i*4 + j )[0][2];
 								matCPh[ i ][ j ] = pParam->pValue( i*4 + j )[0][3];
+								isRational = isRational || matCPh[ i ][ j ] != 1.0f;
 							}
 						}
 						matCPx.SetfIdentity( false );
@@ -487,7 +489,10 @@ void CqSurfacePatchBicubic::ConvertToBezierBasis( CqMatrix& matuBasis, CqMatrix&
 								pParam->pValue( i*4 + j )[0][0] = matCPx[ i ][ j ];
 								pParam->pValue( i*4 + j )[0][1] = matCPy[ i ][ j ];
 								pParam->pValue( i*4 + j )[0][2] = matCPz[ i ][ j ];
-								pParam->pValue( i*4 + j )[0][3] = matCPh[ i ][ j ];
+								// Control points without weights keep the weight
+								// 1, also if the rows of the basis matrix don't
+								// add up to the identity (hermite, power).
+								pParam->pValue( i*4 + j )[0][3] = isRational ? matCPh[ i ][ j ] : 1.0f;
 							}
 						}
 					}
-- 
2.43.0


From f4125715da629e922d05c5adb483d4bc6f25f7b3 Mon Sep 17 00:00:00 2001
From: vf <vf@x>
Date: Wed, 18 Nov 2026 07:10:18 +0000
Subject: [PATCH 41/78] fix: point, vector and normal variables of quadrics are
 transformed with the quadric

---
 libs/core/geometry/quadrics.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/libs/core/geometry/quadrics.cpp b/libs/core/geometry/quadrics.cpp
index 1f7e664..9313394 100644
--- a/libs/core/geometry/quadrics.cpp
+++ b/libs/core/geometry/quadrics.cpp
@@ -72,6 +72,8 @@ void	CqQuadric::Transform( const CqMatrix& matTx, const CqMatrix& matITTx, const
 {
 	m_matTx.PreMultiply(matTx);
 	m_matITTx.PreMultiply(matITTx);
+	// Transform the primitive variables of a geometric type.
+	CqSurface::Transform( matTx, matITTx, matRTx, iTime );
 }
 
 
-- 
2.43.0


From 28ca5de20e1ed52f1a2ec4102e8960f67cb66233 Mon Sep 17 00:00:00 2001
From: vf <vf@x>
Date: Wed, 18 Nov 2026 07:10:18 +0000
Subject: [PATCH 42/78] fix: quadrics seen edge on are diced into at least one
 micropolygon in each direction

---
 libs/core/geometry/quadrics.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/libs/core/geometry/quadrics.cpp b/libs/core/geometry/quadrics.cpp
index 9313394..6d8470c 100644
--- a/libs/core/geometry/quadrics.cpp
+++ b/libs/core/geometry/quadrics.cpp
@@ -333,8 +333,8 @@ TqUlong CqQuadric::EstimateGridSize(const CqMatrix& matCtoR)
 	maxvsize = sqrt( maxvsize );
 
 	TqFloat sqrtShadingRate = sqrt(AdjustedShadingRate());
-	m_uDiceSize = lceil(ESTIMATEGRIDSIZE * maxusize/sqrtShadingRate);
-	m_vDiceSize = lceil(ESTIMATEGRIDSIZE * maxvsize/sqrtShadingRate);
+	m_uDiceSize = max<TqInt>( lceil(ESTIMATEGRIDSIZE * maxusize/sqrtShadingRate), 1 );
+	m_vDiceSize = max<TqInt>( lceil(ESTIMATEGRIDSIZE * maxvsize/sqrtShadingRate), 1 );
 
 	// Ensure power of 2 to avoid cracking
 	const TqInt *binary = pAttributes() ->GetIntegerAttribute( "dice", "binary" );
-- 
2.43.0


From 4974eb83a825b3c627a855fd54c832b7c9d72550 Mon Sep 17 00:00:00 2001
From: vf <vf@x>
Date: Wed, 18 Nov 2026 07:10:19 +0000
Subject: [PATCH 43/78] fix: clip the z limits of a sphere to its radius

---
 libs/core/geometry/quadrics.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/libs/core/geometry/quadrics.cpp b/libs/core/geometry/quadrics.cpp
index 6d8470c..51519dc 100644
--- a/libs/core/geometry/quadrics.cpp
+++ b/libs/core/geometry/quadrics.cpp
@@ -360,9 +360,9 @@ CqSphere::CqSphere( TqFloat radius, TqFloat zmin, TqFloat zmax, TqFloat thetamin
 	// Sanity check the values, while ensuring we keep the same signs.
 	TqFloat frad = fabs(m_Radius);
 	if( fabs(zmin) > frad )
-		zmin = frad*(zmin<0)?-1:1;
-	if( fabs(zmin) > frad )
-		zmin = frad*(zmin<0)?-1:1;
+		zmin = (zmin<0) ? -frad : frad;
+	if( fabs(zmax) > frad )
+		zmax = (zmax<0) ? -frad : frad;
 
 	m_PhiMin = asin( zmin / m_Radius );
 	m_PhiMax = asin( zmax / m_Radius );
-- 
2.43.0


From 30869af6b829894ba86612600fad09a428dc9d9d Mon Sep 17 00:00:00 2001
From: vf <vf@x>
Date: Wed, 18 Nov 2026 07:10:55 +0000
Subject: [PATCH 44/78] fix: uniform array variables keep a value for every
 facet

---
 libs/core/parameters.h | 42 +++++++++++++++++++++++++++---------------
 1 file changed, 27 insertions(+), 15 deletions(-)

diff --git a/libs/core/parameters.h b/libs/core/parameters.h
index 2ee6730..9c7c08a 100644
--- a/libs/core/parameters.h
+++ b/libs/core/parameters.h
@@ -950,17 +950,15 @@ class CqParameterTypedUniformArray : public CqParameterTyped<T, SLT>
 {
 	public:
 		CqParameterTypedUniformArray( const char* strName, TqInt Count = 1 ) :
-				CqParameterTyped<T, SLT>( strName, Count )
+				CqParameterTyped<T, SLT>( strName, Count ),
+				m_size(1)
 		{
 			m_aValues.resize( Count );
 		}
 		CqParameterTypedUniformArray( const CqParameterTypedUniformArray<T, I, SLT>& From ) :
 				CqParameterTyped<T, SLT>( From )
 		{
-			m_aValues.resize( From.m_Count );
-			TqUint i;
-			for ( i = 0; i < (TqUint)From.m_Count; i++ )
-				m_aValues[ i ] = From.m_aValues[ i ];
+			*this = From;
 		}
 		virtual	~CqParameterTypedUniformArray()
 	{}
@@ -982,10 +980,13 @@ class CqParameterTypedUniformArray : public CqParameterTyped<T, SLT>
 			return ( I );
 		}
 		virtual	void	SetSize( TqInt size )
-		{}
+		{
+			m_size = size;
+			m_aValues.resize(m_size*this->m_Count);
+		}
 		virtual	TqUint	Size() const
 		{
-			return ( 1 );
+			return ( m_size );
 		}
 		virtual	void	Clear()
 		{}
@@ -1044,23 +1045,33 @@ class CqParameterTypedUniformArray : public CqParameterTyped<T, SLT>
 		}
 		virtual	const	T*	pValue( const TqInt Index ) const
 		{
-			assert( 0 < m_aValues.size() );
-			return ( &m_aValues[ 0 ] );
+			assert(Index < static_cast<TqInt>(Size()));
+			return ( &m_aValues[ this->m_Count*Index ] );
 		}
 		virtual	T*	pValue( const TqInt Index )
 		{
-			assert( 0 < m_aValues.size() );
-			return ( &m_aValues[ 0 ] );
+			assert(Index < static_cast<TqInt>(Size()));
+			return ( &m_aValues[ this->m_Count*Index ] );
+		}
+
+		virtual	void	SetValue(const CqParameter* pFrom, TqInt idxTarget, TqInt idxSource )
+		{
+			assert( pFrom->Type() == this->Type() );
+			assert( pFrom->Count() == this->Count() );
+
+			const CqParameterTyped<T, SLT>* pFromTyped = static_cast<const CqParameterTyped<T, SLT>*>( pFrom );
+			T* pTargetValues = pValue( idxTarget );
+			const T* pSourceValues = pFromTyped->pValue( idxSource );
+			for(TqInt index = 0; index < this->Count(); index++ )
+				pTargetValues[ index ] = pSourceValues[ index ];
 		}
 
 		/** Assignment operator.
 		 */
 		CqParameterTypedUniformArray<T, I, SLT>& operator=( const CqParameterTypedUniformArray<T, I, SLT>& From )
 		{
-			m_aValues.resize( From.m_aValues.size() );
-			TqInt i2 = 0;
-			for (typename  std::vector<T>::iterator i = From.m_aValues.begin(); i != From.m_aValues.end(); i++, i2++ )
-				m_aValues[ i2 ] = ( *i );
+			m_size = From.m_size;
+			m_aValues.assign(From.m_aValues.begin(), From.m_aValues.end());
 			return ( *this );
 		}
 
@@ -1073,6 +1084,7 @@ class CqParameterTypedUniformArray : public CqParameterTyped<T, SLT>
 			return ( new CqParameterTypedUniformArray<T, I, SLT>( strName, Count ) );
 		}
 	private:
+		TqInt m_size;  ///< number of arrays stored ( == m_aValues.size()/m_Count )
 		std::vector<T>	m_aValues;	///< Array of uniform values.
 }
 ;
-- 
2.43.0


From 6b971d5206b118d0b1099c88c5e515abfecdc146 Mon Sep 17 00:00:00 2001
From: vf <vf@x>
Date: Wed, 18 Nov 2026 07:11:11 +0000
Subject: [PATCH 45/78] fix: all elements of constant array variables are
 copied

---
 libs/core/parameters.h | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/libs/core/parameters.h b/libs/core/parameters.h
index 9c7c08a..2c26fd3 100644
--- a/libs/core/parameters.h
+++ b/libs/core/parameters.h
@@ -1202,6 +1202,18 @@ class CqParameterTypedConstantArray : public CqParameterTyped<T, SLT>
 			return ( &m_aValues[ 0 ] );
 		}
 
+		virtual	void	SetValue(const CqParameter* pFrom, TqInt idxTarget, TqInt idxSource )
+		{
+			assert( pFrom->Type() == this->Type() );
+			assert( pFrom->Count() == this->Count() );
+
+			const CqParameterTyped<T, SLT>* pFromTyped = static_cast<const CqParameterTyped<T, SLT>*>( pFrom );
+			T* pTargetValues = pValue( idxTarget );
+			const T* pSourceValues = pFromTyped->pValue( idxSource );
+			for(TqInt index = 0; index < this->Count(); index++ )
+				pTargetValues[ index ] = pSourceValues[ index ];
+		}
+
 		/** Assignment operator.
 		 */
 		CqParameterTypedConstantArray<T, I, SLT>& operator=( const CqParameterTypedUniformArray<T, I, SLT>& From )
-- 
2.43.0


From 899351291990b5ced5af4781044876b4ef35394a Mon Sep 17 00:00:00 2001
From: vf <vf@x>
Date: Wed, 18 Nov 2026 07:23:58 +0000
Subject: [PATCH 46/78] fix: GeneralPolygon handles face variables, and leaves
 the orientation attribute alone

---
 libs/core/api/ri.cpp | 137 ++++---------------------------------------
 1 file changed, 10 insertions(+), 127 deletions(-)

diff --git a/libs/core/api/ri.cpp b/libs/core/api/ri.cpp
index 5adb6db..f732d1c 100644
--- a/libs/core/api/ri.cpp
+++ b/libs/core/api/ri.cpp
@@ -1900,135 +1900,18 @@ RtVoid RiCxxCore::Polygon(const ParamList& pList)
 //
 RtVoid RiCxxCore::GeneralPolygon(const IntArray& nverts, const ParamList& pList)
 {
-	RtInt nloops = nverts.size();
-	TqInt iloop;
-
-	// Calcualte how many points there are.
-	TqInt cVerts = 0;
-	for ( iloop = 0; iloop < nloops; ++iloop )
-	{
+	// A general polygon is a set of one general polygon whose vertices are
+	// used in the order in which they are given.
+	const RtInt nloops = nverts.size();
+	RtInt cVerts = 0;
+	for ( TqInt iloop = 0; iloop < nloops; ++iloop )
 		cVerts += nverts[ iloop ];
-		// Check for degenerate loops.
-		if( nverts[ iloop ] < 3 )
-		{
-			CqString objname( "unnamed" );
-			const CqString* pattrName = QGetRenderContext()->pattrCurrent()->GetStringAttribute( "identifier", "name" );
-			if ( pattrName != 0 )
-				objname = pattrName[ 0 ];
-			Aqsis::log() << warning << "Degenerate loop in GeneralPolygon object \"" << objname.c_str() << "\"" << std::endl;
-		}
-	}
-
-	// Create a storage class for all the points.
-	boost::shared_ptr<CqPolygonPoints> pPointsClass( new CqPolygonPoints( cVerts, 1, cVerts ) );
-	// Process any specified primitive variables
-	if ( ProcessPrimitiveVariables( pPointsClass.get(), pList ) )
-	{
-		pPointsClass->SetDefaultPrimitiveVariables( RI_FALSE );
-
-		// Work out which plane to project to.
-		TqFloat	MinX, MaxX;
-		TqFloat	MinY, MaxY;
-		TqFloat	MinZ, MaxZ;
-		CqVector3D vecTemp = vectorCast<CqVector3D>(pPointsClass->P()->pValue(0)[0]);
-		MinX = MaxX = vecTemp.x();
-		MinY = MaxY = vecTemp.y();
-		MinZ = MaxZ = vecTemp.z();
-
-		// We need to take into account Orientation here.
-		bool O = QGetRenderContext()->pattrCurrent() ->GetIntegerAttribute( "System", "Orientation" ) [ 0 ] != 0;
-
-		TqUint iVert;
-		for ( iVert = 1; iVert < pPointsClass->P() ->Size(); ++iVert )
-		{
-			vecTemp = vectorCast<CqVector3D>(pPointsClass->P()->pValue(iVert)[0]);
-			MinX = ( MinX < vecTemp.x() ) ? MinX : vecTemp.x();
-			MinY = ( MinY < vecTemp.y() ) ? MinY : vecTemp.y();
-			MinZ = ( MinZ < vecTemp.z() ) ? MinZ : vecTemp.z();
-			MaxX = ( MaxX > vecTemp.x() ) ? MaxX : vecTemp.x();
-			MaxY = ( MaxY > vecTemp.y() ) ? MaxY : vecTemp.y();
-			MaxZ = ( MaxZ > vecTemp.z() ) ? MaxZ : vecTemp.z();
-		}
-		TqFloat	DiffX = MaxX - MinX;
-		TqFloat	DiffY = MaxY - MinY;
-		TqFloat	DiffZ = MaxZ - MinZ;
-
-		TqInt Axis;
-		if ( DiffX < DiffY && DiffX < DiffZ )
-			Axis = CqPolygonGeneral2D::Axis_YZ;
-		else if ( DiffY < DiffX && DiffY < DiffZ )
-			Axis = CqPolygonGeneral2D::Axis_XZ;
-		else
-			Axis = CqPolygonGeneral2D::Axis_XY;
-
-		// Create a general 2D polygon using the points in each loop.
-		CqPolygonGeneral2D poly;
-		TqUint ipoint = 0;
-		for ( iloop = 0; iloop < nloops; ++iloop )
-		{
-			CqPolygonGeneral2D polya;
-			polya.SetAxis( Axis );
-			polya.SetpVertices( pPointsClass );
-			TqInt ivert;
-			for ( ivert = 0; ivert < nverts[ iloop ]; ++ivert )
-			{
-				assert( ipoint < pPointsClass->P() ->Size() );
-				polya.aiVertices().push_back( ipoint++ );
-			}
-			if ( iloop == 0 )
-			{
-				/// \note: We need to check here if the orientation of the projected poly matches the
-				/// expected one, of not, we must swap the direction so that the triangulation routines can
-				/// correctly determine the inside/outside nature of points. However, if doing so breaks the
-				/// orientation as expected by the rest of the renderer, we need to flip the orientation
-				/// attribute as well so that normals are correctly calculated.
-				if( O )
-				{
-					if ( polya.CalcOrientation() != CqPolygonGeneral2D::Orientation_AntiClockwise )
-					{
-						QGetRenderContext() ->pattrWriteCurrent()->GetIntegerAttributeWrite( "System", "Orientation" ) [ 0 ] = 0;
-						polya.SwapDirection();
-					}
-				}
-				else
-				{
-					if ( polya.CalcOrientation() != CqPolygonGeneral2D::Orientation_Clockwise )
-					{
-						QGetRenderContext() ->pattrWriteCurrent()->GetIntegerAttributeWrite( "System", "Orientation" ) [ 0 ] = 1;
-						polya.SwapDirection();
-					}
-				}
-				poly = polya;
-			}
-			else
-			{
-				if( O )
-				{
-					if ( polya.CalcOrientation() != CqPolygonGeneral2D::Orientation_Clockwise )
-						polya.SwapDirection();
-				}
-				else
-				{
-					if ( polya.CalcOrientation() != CqPolygonGeneral2D::Orientation_AntiClockwise )
-						polya.SwapDirection();
-				}
-				poly.Combine( polya );
-			}
-		}
-		// Now triangulate the general polygon
+	std::vector<RtInt> verts( cVerts );
+	for ( TqInt iVert = 0; iVert < cVerts; ++iVert )
+		verts[ iVert ] = iVert;
 
-		std::vector<TqInt>	aiTriangles;
-		poly.CalcOrientation();
-		poly.Triangulate( aiTriangles );
-
-		TqUint ctris = aiTriangles.size() / 3;
-		// Build an array of point counts (always 3 each).
-		std::vector<RtInt> _nverts;
-		_nverts.resize( ctris, 3 );
-
-		PointsPolygons(Ri::IntArray(&_nverts[0], _nverts.size()),
-					   Ri::IntArray(&aiTriangles[0], aiTriangles.size()), pList);
-	}
+	PointsGeneralPolygons(IntArray(&nloops, 1), nverts,
+						  IntArray(cVerts > 0 ? &verts[0] : 0, cVerts), pList);
 }
 
 //----------------------------------------------------------------------
-- 
2.43.0


From d97ead3e03599e314060fcefb991718161d13553 Mon Sep 17 00:00:00 2001
From: vf <vf@x>
Date: Wed, 18 Nov 2026 07:23:58 +0000
Subject: [PATCH 47/78] fix: general polygons are projected along an axis in
 which they are not degenerate

---
 libs/core/api/genpoly.cpp | 4 ++--
 libs/core/api/ri.cpp      | 7 +++++--
 2 files changed, 7 insertions(+), 4 deletions(-)

diff --git a/libs/core/api/genpoly.cpp b/libs/core/api/genpoly.cpp
index 0a93540..fa27f8a 100644
--- a/libs/core/api/genpoly.cpp
+++ b/libs/core/api/genpoly.cpp
@@ -80,9 +80,9 @@ void CqPolygonGeneral2D::CalcAxis()
 		++i;
 	}
 	// We want to project out the axis which has the maximum normal component.
-	if(normal.x() > normal.y() && normal.x() > normal.z())
+	if(normal.x() >= normal.y() && normal.x() >= normal.z())
 		SetAxis(Axis_YZ);
-	else if(normal.y() > normal.x() && normal.y() > normal.z())
+	else if(normal.y() >= normal.x() && normal.y() >= normal.z())
 		SetAxis(Axis_XZ);
 	else
 		SetAxis(Axis_XY);
diff --git a/libs/core/api/ri.cpp b/libs/core/api/ri.cpp
index f732d1c..c331714 100644
--- a/libs/core/api/ri.cpp
+++ b/libs/core/api/ri.cpp
@@ -2332,8 +2332,11 @@ RtVoid RiCxxCore::PointsGeneralPolygons(const IntArray& nloops, const IntArray&
 					assert( ipoint < pPointsClass->P() ->Size() );
 					polya.aiVertices().push_back( ipoint );
 				}
-				// Work out which plane to project onto.
-				polya.CalcAxis();
+				// Work out which plane to project onto; the same for all loops.
+				if ( iloop == 0 )
+					polya.CalcAxis();
+				else
+					polya.SetAxis( poly.Axis() );
 
 				if ( iloop == 0 )
 				{
-- 
2.43.0


From 05ec395f094bae0b31d2e167cdc00f88fcd4b417 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:30:05 +0000
Subject: [PATCH 48/78] fix: array variables of curves are subdivided element
 by element

---
 libs/core/geometry/cubiccurves.cpp  | 28 +++++++++++++++++-----------
 libs/core/geometry/linearcurves.cpp |  9 ++++++---
 2 files changed, 23 insertions(+), 14 deletions(-)

diff --git a/libs/core/geometry/cubiccurves.cpp b/libs/core/geometry/cubiccurves.cpp
index dc02ab0..a8c7bbc 100644
--- a/libs/core/geometry/cubiccurves.cpp
+++ b/libs/core/geometry/cubiccurves.cpp
@@ -98,16 +98,19 @@ void cubicCurveNatSubdiv(
 	CqParameterTyped<T, SLT>* pTResult1 = static_cast<CqParameterTyped<T, SLT>*>( pResult1 );
 	CqParameterTyped<T, SLT>* pTResult2 = static_cast<CqParameterTyped<T, SLT>*>( pResult2 );
 
-	pTResult1->pValue() [ 0 ] = pTParam->pValue() [ 0 ];
-	pTResult1->pValue() [ 1 ] = static_cast<T>( ( pTParam->pValue() [ 0 ] + pTParam->pValue() [ 1 ] ) / 2.0f );
-	pTResult1->pValue() [ 2 ] = static_cast<T>( pTResult1->pValue() [ 1 ] / 2.0f + ( pTParam->pValue() [ 1 ] + pTParam->pValue() [ 2 ] ) / 4.0f );
+	for(TqInt k = 0, count = pTParam->Count(); k < count; ++k)
+	{
+		pTResult1->pValue( 0 ) [ k ] = pTParam->pValue( 0 ) [ k ];
+		pTResult1->pValue( 1 ) [ k ] = static_cast<T>( ( pTParam->pValue( 0 ) [ k ] + pTParam->pValue( 1 ) [ k ] ) / 2.0f );
+		pTResult1->pValue( 2 ) [ k ] = static_cast<T>( pTResult1->pValue( 1 ) [ k ] / 2.0f + ( pTParam->pValue( 1 ) [ k ] + pTParam->pValue( 2 ) [ k ] ) / 4.0f );
 
-	pTResult2->pValue() [ 3 ] = pTParam->pValue() [ 3 ];
-	pTResult2->pValue() [ 2 ] = static_cast<T>( ( pTParam->pValue() [ 2 ] + pTParam->pValue() [ 3 ] ) / 2.0f );
-	pTResult2->pValue() [ 1 ] = static_cast<T>( pTResult2->pValue() [ 2 ] / 2.0f + ( pTParam->pValue() [ 1 ] + pTParam->pValue() [ 2 ] ) / 4.0f );
+		pTResult2->pValue( 3 ) [ k ] = pTParam->pValue( 3 ) [ k ];
+		pTResult2->pValue( 2 ) [ k ] = static_cast<T>( ( pTParam->pValue( 2 ) [ k ] + pTParam->pValue( 3 ) [ k ] ) / 2.0f );
+		pTResult2->pValue( 1 ) [ k ] = static_cast<T>( pTResult2->pValue( 2 ) [ k ] / 2.0f + ( pTParam->pValue( 1 ) [ k ] + pTParam->pValue( 2 ) [ k ] ) / 4.0f );
 
-	pTResult1->pValue() [ 3 ] = static_cast<T>( ( pTResult1->pValue() [ 2 ] + pTResult2->pValue() [ 1 ] ) / 2.0f );
-	pTResult2->pValue() [ 0 ] = pTResult1->pValue() [ 3 ];
+		pTResult1->pValue( 3 ) [ k ] = static_cast<T>( ( pTResult1->pValue( 2 ) [ k ] + pTResult2->pValue( 1 ) [ k ] ) / 2.0f );
+		pTResult2->pValue( 0 ) [ k ] = pTResult1->pValue( 3 ) [ k ];
+	}
 }
 
 } // unnamed namespace
@@ -167,9 +170,12 @@ void cubicCurveVaryingNatSubdiv(
 	CqParameterTyped<T, SLT>* pTResult1 = static_cast<CqParameterTyped<T, SLT>*>( pResult1 );
 	CqParameterTyped<T, SLT>* pTResult2 = static_cast<CqParameterTyped<T, SLT>*>( pResult2 );
 
-	pTResult1->pValue() [ 0 ] = pTParam->pValue() [ 0 ];
-	pTResult1->pValue() [ 1 ] = pTResult2->pValue() [ 0 ] = static_cast<T>( ( pTParam->pValue() [ 0 ] + pTParam->pValue() [ 1 ] ) * 0.5f );
-	pTResult2->pValue() [ 1 ] = pTParam->pValue() [ 1 ];
+	for(TqInt k = 0, count = pTParam->Count(); k < count; ++k)
+	{
+		pTResult1->pValue( 0 ) [ k ] = pTParam->pValue( 0 ) [ k ];
+		pTResult1->pValue( 1 ) [ k ] = pTResult2->pValue( 0 ) [ k ] = static_cast<T>( ( pTParam->pValue( 0 ) [ k ] + pTParam->pValue( 1 ) [ k ] ) * 0.5f );
+		pTResult2->pValue( 1 ) [ k ] = pTParam->pValue( 1 ) [ k ];
+	}
 }
 
 } // unnamed namespace
diff --git a/libs/core/geometry/linearcurves.cpp b/libs/core/geometry/linearcurves.cpp
index 58687af..eb0ccaf 100644
--- a/libs/core/geometry/linearcurves.cpp
+++ b/libs/core/geometry/linearcurves.cpp
@@ -77,9 +77,12 @@ void linCurveNatSubdiv(CqParameter* pParam,
 	CqParameterTyped<T, SLT>* pTResult1 = static_cast<CqParameterTyped<T, SLT>*>( pResult1 );
 	CqParameterTyped<T, SLT>* pTResult2 = static_cast<CqParameterTyped<T, SLT>*>( pResult2 );
 
-	pTResult1->pValue() [ 0 ] = pTParam->pValue() [ 0 ];
-	pTResult1->pValue() [ 1 ] = pTResult2->pValue() [ 0 ] = static_cast<T>( ( pTParam->pValue() [ 0 ] + pTParam->pValue() [ 1 ] ) * 0.5f );
-	pTResult2->pValue() [ 1 ] = pTParam->pValue() [ 1 ];
+	for(TqInt k = 0, count = pTParam->Count(); k < count; ++k)
+	{
+		pTResult1->pValue( 0 ) [ k ] = pTParam->pValue( 0 ) [ k ];
+		pTResult1->pValue( 1 ) [ k ] = pTResult2->pValue( 0 ) [ k ] = static_cast<T>( ( pTParam->pValue( 0 ) [ k ] + pTParam->pValue( 1 ) [ k ] ) * 0.5f );
+		pTResult2->pValue( 1 ) [ k ] = pTParam->pValue( 1 ) [ k ];
+	}
 }
 
 } // unnamed namespace 
-- 
2.43.0


From 0f8bdf52bc9448a785adbbacce0306e0077da4b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:30:22 +0000
Subject: [PATCH 49/78] fix: uniform and constant Cs and Os of Points were read
 beyond their only value

---
 libs/core/geometry/points.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/libs/core/geometry/points.cpp b/libs/core/geometry/points.cpp
index b9a4ff6..f67f533 100644
--- a/libs/core/geometry/points.cpp
+++ b/libs/core/geometry/points.cpp
@@ -274,12 +274,14 @@ void pointsNaturalDice(CqParameter* pParam, const std::vector<TqInt>& paramIdx,
 
 	CqParameterTyped<T, SLT>* pTParam = static_cast<CqParameterTyped<T, SLT>*>(pParam);
 	const T* src = pTParam->pValue();
+	// Uniform and constant parameters have one value for all the points.
+	const bool isSingle = pParam->Class() == class_uniform || pParam->Class() == class_constant;
 	for(TqInt j = 0, arraySize = pTParam->Count(); j < arraySize; j++)
 	{
 		SLT* dest = 0;
 		pData->ArrayEntry(j)->GetValuePtr(dest);
 		for(TqInt i = 0; i < diceSize; i++ )
-			dest[i] = paramToShaderType<SLT,T>( src[arraySize*paramIdx[i] + j] );
+			dest[i] = paramToShaderType<SLT,T>( src[(isSingle ? 0 : arraySize*paramIdx[i]) + j] );
 	}
 }
 
-- 
2.43.0


From a2070c89b9baeb464f3944b77dc440d4c702bc8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:09:05 +0000
Subject: [PATCH 50/78] fix: polygons which begin with vertices in a line have
 a normal

---
 libs/core/geometry/polygon.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/libs/core/geometry/polygon.cpp b/libs/core/geometry/polygon.cpp
index 24657ca..27a9dfa 100644
--- a/libs/core/geometry/polygon.cpp
+++ b/libs/core/geometry/polygon.cpp
@@ -104,7 +104,8 @@ TqInt CqPolygonBase::Split( std::vector<boost::shared_ptr<CqSurface> >& aSplits
 		while ( i < n )
 		{
 			vecN1 = PolyP(i) - vecA;
-			if ( vecN1.Magnitude() > FLT_EPSILON && vecN1 != vecN0 )
+			// Vertices in line with the first two don't define a plane.
+			if ( ( vecN0 % vecN1 ).Magnitude() > 1e-5f * vecN0.Magnitude() * vecN1.Magnitude() )
 				break;
 			i++;
 		}
-- 
2.43.0


From f74e1bc47c0e2eac53b77a831ae3f726c18746c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:18:27 +0000
Subject: [PATCH 51/78] fix: buckets smaller than the overlap of the pixel
 filter crashed the renderer

---
 libs/core/optioncache.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/libs/core/optioncache.cpp b/libs/core/optioncache.cpp
index 0f9b68d..c57e014 100644
--- a/libs/core/optioncache.cpp
+++ b/libs/core/optioncache.cpp
@@ -82,6 +82,10 @@ void SqOptionCache::cacheOptions(const IqOptions& opts)
 		xBucketSize = bktSize[0];
 		yBucketSize = bktSize[1];
 	}
+	// Neighbouring buckets overlap by the width of the filter; a bucket has to
+	// be large enough for its overlaps with two neighbours to be distinct.
+	xBucketSize = max<TqInt>(xBucketSize, 2*lfloor(xFiltSize/2.0f));
+	yBucketSize = max<TqInt>(yBucketSize, 2*lfloor(yFiltSize/2.0f));
 	// Eye split bound
 	maxEyeSplits = 10;
 	if(const TqInt* splits = opts.GetIntegerOption("limits", "eyesplits"))
-- 
2.43.0


From 90e680b0e4a83c61842ad2181d95f2acc3594d02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:19:21 +0000
Subject: [PATCH 52/78] fix: pixel filters of fractional width were cut off at
 the wrong pixels

---
 libs/core/optioncache.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/libs/core/optioncache.cpp b/libs/core/optioncache.cpp
index c57e014..451518a 100644
--- a/libs/core/optioncache.cpp
+++ b/libs/core/optioncache.cpp
@@ -21,6 +21,8 @@
 
 #include "optioncache.h"
 
+#include <cmath>
+
 #include <aqsis/util/logging.h>
 #include <aqsis/util/sstring.h>
 
@@ -50,8 +52,9 @@ void SqOptionCache::cacheOptions(const IqOptions& opts)
 	// Filter size
 	const TqFloat* filtSize = opts.GetFloatOption("System", "FilterWidth");
 	assert(filtSize);
-	xFiltSize = filtSize[0];
-	yFiltSize = filtSize[1];
+	// Filters extend over whole pixels.
+	xFiltSize = std::ceil(filtSize[0]);
+	yFiltSize = std::ceil(filtSize[1]);
 
 	// Number of pixel samples.
 	const TqInt* pixelSamps = opts.GetIntegerOption("System", "PixelSamples");
-- 
2.43.0


From 264248d1b835e824a74920376adbb1ed128d0035 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:59:45 +0000
Subject: [PATCH 53/78] fix: the weights of rational NURBS patches were ignored

---
 libs/core/geometry/nurbs.h | 31 +++++++++++++++++++++++++++++--
 1 file changed, 29 insertions(+), 2 deletions(-)

diff --git a/libs/core/geometry/nurbs.h b/libs/core/geometry/nurbs.h
index 0cdc65e..f9e2dee 100644
--- a/libs/core/geometry/nurbs.h
+++ b/libs/core/geometry/nurbs.h
@@ -238,6 +238,31 @@ class CqSurfaceNURBS : public CqSurface
 		void	BasisFunctions( TqFloat u, TqUint span, std::vector<TqFloat>& aKnots, TqInt k, std::vector<TqFloat>& BasisVals );
 		void	DersBasisFunctions( TqFloat u, TqUint i, std::vector<TqFloat>& U, TqInt k, TqInt n, std::vector<std::vector<TqFloat> >& ders );
 
+		/** Prepare a value to accumulate a weighted sum of control values.
+		 */
+		template <class T>
+		static void	clearValue( T& )
+		{}
+		static void	clearValue( CqVector4D& sum )
+		{
+			sum.h( 0.0f );
+		}
+		/** Add a weighted control value to a sum. Homogenous points are summed in all four
+		 * coordinates, as the operators of CqVector4D work on the projected point.
+		 */
+		template <class T>
+		static void	addScaled( T& sum, TqFloat weight, const T& value )
+		{
+			sum = static_cast<T>( sum + weight * value );
+		}
+		static void	addScaled( CqVector4D& sum, TqFloat weight, const CqVector4D& value )
+		{
+			sum.x( sum.x() + weight * value.x() );
+			sum.y( sum.y() + weight * value.y() );
+			sum.z( sum.z() + weight * value.z() );
+			sum.h( sum.h() + weight * value.h() );
+		}
+
 		template <class T, class SLT>
 		T	Evaluate( TqFloat u, TqFloat v, CqParameterTyped<T, SLT>* pParam, TqInt arrayIndex = 0 )
 		{
@@ -253,14 +278,16 @@ class CqSurfaceNURBS : public CqSurface
 			TqUint uind = uspan - uDegree();
 
 			T S = T();
+			clearValue( S );
 			TqUint l, k;
 			for ( l = 0; l <= vDegree(); l++ )
 			{
 				T temp = T();
+				clearValue( temp );
 				TqUint vind = vspan - vDegree() + l;
 				for ( k = 0; k <= uDegree(); k++ )
-					temp = static_cast<T>( temp + Nu[ k ] * ( pParam->pValue( ( vind * m_cuVerts ) + uind + k )[arrayIndex] ) );
-				S = static_cast<T>( S + Nv[ l ] * temp );
+					addScaled( temp, Nu[ k ], pParam->pValue( ( vind * m_cuVerts ) + uind + k )[arrayIndex] );
+				addScaled( S, Nv[ l ], temp );
 			}
 			return ( S );
 		}
-- 
2.43.0


From 7b73eaf8454534a4d08c1ccd0dccac91ab1e4e74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:59:45 +0000
Subject: [PATCH 54/78] fix: small NURBS patches of several segments used the
 values of the first segment only

---
 libs/core/geometry/nurbs.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/libs/core/geometry/nurbs.cpp b/libs/core/geometry/nurbs.cpp
index 98e58ba..c7f450f 100644
--- a/libs/core/geometry/nurbs.cpp
+++ b/libs/core/geometry/nurbs.cpp
@@ -1655,6 +1655,11 @@ bool	CqSurfaceNURBS::Diceable(const CqMatrix& matCtoR)
 	if ( !m_fDiceable )
 		return ( false );
 
+	// A mesh of several segments holds 'uniform' and 'varying' values for each of them, so it must be
+	// split into its segments before it can be diced.
+	if ( fPatchMesh() && ( cuSegments() > 1 || cvSegments() > 1 ) )
+		return ( false );
+
 	// Otherwise we should continue to try to find the most advantageous split direction, OR the dice size.
 	// Convert the control hull to raster space.
 	CqVector3D * avecHull = new CqVector3D[ m_cuVerts * m_cvVerts ];
-- 
2.43.0


From a76432ec9f08d954b31890aeb78f0975966cefa9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:59:45 +0000
Subject: [PATCH 55/78] fix: textures clamped in one direction and periodic in
 the other lost texels at their corners

---
 include/aqsis/tex/filtering/filtertexture.h | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/include/aqsis/tex/filtering/filtertexture.h b/include/aqsis/tex/filtering/filtertexture.h
index c2fbfd1..25a9905 100644
--- a/include/aqsis/tex/filtering/filtertexture.h
+++ b/include/aqsis/tex/filtering/filtertexture.h
@@ -180,12 +180,14 @@ void filterWrappedBuffer(SampleAccumT& sampleAccum, const ArrayT& buffer,
 			// clamped in x direction, but not in y direction.
 			// Here we perform a normal iteration over y, but leave 
 			TqInt xClamp = clamp(tlX, 0, buffer.width()-1);
-			SqFilterSupport clampedSupport(SqFilterSupport1D(xClamp, xClamp+1), tileSupport.sy);
+			// The y direction may be periodic.
+			SqFilterSupport clampedSupport(SqFilterSupport1D(xClamp, xClamp+1),
+					SqFilterSupport1D(tileSupport.sy.start - tlY, tileSupport.sy.end - tlY));
 			for(typename ArrayT::TqIterator i = buffer.begin(clampedSupport);
 					i.inSupport(); ++i)
 			{
 				for(TqInt ix = tileSupport.sx.start; ix < tileSupport.sx.end; ++ix)
-					sampleAccum.accumulate(ix, i.y(), *i);
+					sampleAccum.accumulate(ix, i.y() + tlY, *i);
 			}
 		}
 	}
@@ -194,12 +196,14 @@ void filterWrappedBuffer(SampleAccumT& sampleAccum, const ArrayT& buffer,
 		// clamped in y direction, but not in x direction.  This is just an
 		// inverted (and slightly duplicated :-/ ) version of the code above
 		TqInt yClamp = clamp(tlY, 0, buffer.height()-1);
-		SqFilterSupport clampedSupport(tileSupport.sx, SqFilterSupport1D(yClamp, yClamp+1));
+		SqFilterSupport clampedSupport(
+				SqFilterSupport1D(tileSupport.sx.start - tlX, tileSupport.sx.end - tlX),
+				SqFilterSupport1D(yClamp, yClamp+1));
 		for(typename ArrayT::TqIterator i = buffer.begin(clampedSupport);
 				i.inSupport(); ++i)
 		{
 			for(TqInt iy = tileSupport.sy.start; iy < tileSupport.sy.end; ++iy)
-				sampleAccum.accumulate(i.x(), iy, *i);
+				sampleAccum.accumulate(i.x() + tlX, iy, *i);
 		}
 	}
 	else
-- 
2.43.0


From 7cf7251a86a0953eef757fdff65d5b1a281b128b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:59:45 +0000
Subject: [PATCH 56/78] fix: PNG images which are not RGB or RGBA of eight bits
 were read wrongly

---
 libs/tex/io/pnginputfile.cpp | 29 +++++++++++++++++++++++++----
 1 file changed, 25 insertions(+), 4 deletions(-)

diff --git a/libs/tex/io/pnginputfile.cpp b/libs/tex/io/pnginputfile.cpp
index e8c4231..1f37c8a 100644
--- a/libs/tex/io/pnginputfile.cpp
+++ b/libs/tex/io/pnginputfile.cpp
@@ -110,6 +110,13 @@ private:
                 ::png_init_io(m_PNGHandle, m_fileHandle);
                 ::png_read_info(m_PNGHandle, m_infoPtr);
 
+                // Palettes, transparency and samples of other sizes are converted
+                // to plain channels of eight bits, which is what we deliver.
+                ::png_set_expand(m_PNGHandle);
+                ::png_set_strip_16(m_PNGHandle);
+                ::png_set_interlace_handling(m_PNGHandle);
+                ::png_read_update_info(m_PNGHandle, m_infoPtr);
+
                 success = initImageBuffer();
                 if (success)
                 {
@@ -244,6 +251,18 @@ inline static TqUint8 premultiplyAlpha(TqUint8 inColorValue, TqUint8 inAlpha)
     return (((TqUint16)inColorValue) * inAlpha) / 255;
 }
 
+/* Copy the pixels of a grey image with an alpha channel, premultiplying the grey value. */
+static void copyGreyAPremultiPixel(TqUint8* inDestBuff, const TqUint8* inSrcBuff, size_t buffSize)
+{
+    for(; buffSize >= 2 ; buffSize -= 2)
+    {
+        const TqUint8 alpha( inSrcBuff[1] );
+
+        *(inDestBuff++) = premultiplyAlpha(*(inSrcBuff++), alpha);
+        *(inDestBuff++) = *(inSrcBuff++);
+    }
+}
+
 /* Copy the pixels from a source buffer to a destination buffer by assuming that each pixel
  * consists of 4 components (RGBA).
  *
@@ -282,13 +301,15 @@ void CqPngInputFile::readPixelsImpl(TqUint8* buffer, TqInt startLine,
     TqUint8* destBuff(buffer);
 
     // Dependent from the color model use a special copy routine.
-    LineCopyFuncPtr lineCopyFunc = (getNrOfChannels() == 3) ?
-        copyRGBPixel :         // If the number of channels is 3 then use copyRGBPixel(...)
-        copyRGBAPremultiPixel; // If the number of channels is 4 then use copyRGBAPremultiPixel(...)
+    LineCopyFuncPtr lineCopyFunc = copyRGBPixel; // Images without alpha are copied as they are.
+    if (getNrOfChannels() == 4)
+        lineCopyFunc = copyRGBAPremultiPixel;
+    else if (getNrOfChannels() == 2)
+        lineCopyFunc = copyGreyAPremultiPixel;
 
     for (int lineIdx = 0; lineIdx != numScanlines; ++lineIdx, destBuff += destBytesPerLine)
     {
-        const TqUint8* srcBuff(getRowPtr(lineIdx));
+        const TqUint8* srcBuff(getRowPtr(startLine + lineIdx));
         assert(srcBuff);
         if ( NULL != srcBuff )
         {
-- 
2.43.0


From 1461dd27e5d45d3190c04cda8c2bceae7e10c3ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:09:14 +0000
Subject: [PATCH 57/78] fix: texture lookups wrap only along the periodic
 directions

SqSamplePllgram::remapPeriodic() moved the sample region into the unit square
in both directions as soon as one was periodic, so that a texture which is
periodic in one direction and black or clamped in the other was repeated in
both.
---
 include/aqsis/tex/filtering/samplequad.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/aqsis/tex/filtering/samplequad.h b/include/aqsis/tex/filtering/samplequad.h
index cd822ec..554a1fe 100644
--- a/include/aqsis/tex/filtering/samplequad.h
+++ b/include/aqsis/tex/filtering/samplequad.h
@@ -359,7 +359,8 @@ inline void SqSamplePllgram::remapPeriodic(bool xPeriodic, bool yPeriodic)
 	{
 		if(c.x() < 0 || c.y() < 0 || c.x() >= 1 || c.y() >= 1)
 		{
-			CqVector2D v(std::floor(c.x()),std::floor(c.y()));
+			CqVector2D v(xPeriodic ? std::floor(c.x()) : 0,
+					yPeriodic ? std::floor(c.y()) : 0);
 			c -= v;
 		}
 	}
-- 
2.43.0


From 5a6c40ea7efb8fb1746dfc9587423477adca6a73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:09:14 +0000
Subject: [PATCH 58/78] fix: texture filter width scales both sides of the
 filter region

SqSamplePllgram::scaleWidth() replaced the second side by the scaled first
one.
---
 include/aqsis/tex/filtering/samplequad.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/aqsis/tex/filtering/samplequad.h b/include/aqsis/tex/filtering/samplequad.h
index 554a1fe..1673da8 100644
--- a/include/aqsis/tex/filtering/samplequad.h
+++ b/include/aqsis/tex/filtering/samplequad.h
@@ -372,8 +372,8 @@ inline void SqSamplePllgram::scaleWidth(TqFloat xWidth, TqFloat yWidth)
 	{
 		s1.x(s1.x()*xWidth);
 		s1.y(s1.y()*yWidth);
-		s2.x(s1.x()*xWidth);
-		s2.y(s1.y()*yWidth);
+		s2.x(s2.x()*xWidth);
+		s2.y(s2.y()*yWidth);
 	}
 }
 
-- 
2.43.0


From 1770a9c6fdaaa1d62b1ebda127f481eaf8574ba4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:12:25 +0000
Subject: [PATCH 59/78] fix: interpolation between mipmap levels darkened
 texture lookups

With "lerp" (or some blur) the filter could be too narrow to cover any texel
of the second level, which then contributed black.
---
 libs/tex/filtering/mipmap.h | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/libs/tex/filtering/mipmap.h b/libs/tex/filtering/mipmap.h
index 87abd51..de4570b 100644
--- a/libs/tex/filtering/mipmap.h
+++ b/libs/tex/filtering/mipmap.h
@@ -281,6 +281,17 @@ void CqMipmap<TextureBufferT>::applyFilter(const FilterFactoryT& filterFactory,
 		blurRatio = clamp(2*maxBlur/filterFactory.minorAxisWidth(), 0.0f, 1.0f);
 		minFilterWidth += 2*blurRatio;
 	}
+	// Determine whether to interpolate between mipmap levels (see below).
+	const bool useLerp = sampleOpts.lerp() == Lerp_Always
+		|| (sampleOpts.lerp() == Lerp_Auto && blurRatio > 0.2);
+	if(useLerp)
+	{
+		// On the second mipmap level the filter is half as wide, in texels, as
+		// on the first.  It has to be at least sqrt(2) texels wide there to
+		// be sure to cover a texel centre; if it covers none the filtered
+		// result is black.
+		minFilterWidth = max(minFilterWidth, 2.83f);
+	}
 	TqFloat levelCts = log2(filterFactory.minorAxisWidth()/minFilterWidth);
 	TqInt level = clamp<TqInt>(lfloor(levelCts), 0, numLevels()-1);
 
@@ -289,9 +300,7 @@ void CqMipmap<TextureBufferT>::applyFilter(const FilterFactoryT& filterFactory,
 	// Sometimes we might want to interpolate between the filtered result
 	// already computed above and the next lower mipmap level.  We do that now
 	// if necessary.
-	if( ( sampleOpts.lerp() == Lerp_Always
-		|| (sampleOpts.lerp() == Lerp_Auto && blurRatio > 0.2) )
-		&& level < numLevels()-1 && levelCts > 0)
+	if(useLerp && level < numLevels()-1 && levelCts > 0)
 	{
 		// Use interpolation between the results of filtering on two different
 		// mipmap levels.  This should only be necessary if using filter blur,
-- 
2.43.0


From 40a5bc0e03d596be477c4b377a9ad509645e54e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:11:11 +0000
Subject: [PATCH 60/78] fix: write all tiles of a shadow map which is taller
 than wide

The number of rows of tiles was computed from the width of the image.
---
 tools/displays/file/display.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tools/displays/file/display.cpp b/tools/displays/file/display.cpp
index ae02f74..67a9377 100644
--- a/tools/displays/file/display.cpp
+++ b/tools/displays/file/display.cpp
@@ -182,7 +182,7 @@ void SaveAsShadowMap(const std::string& filename, SqDisplayInstance* image, char
 
 			if ( ptile != NULL )
 			{
-				TqUint ctiles = tperrow * ( ( image->m_width + tlength - 1 ) / tlength );
+				TqUint ctiles = tperrow * ( ( image->m_height + tlength - 1 ) / tlength );
 				TqUint itile;
 				for ( itile = 0; itile < ctiles; itile++ )
 				{
-- 
2.43.0


From 1b56e9b6c41a1e8166f7c6ad4aa89dc461e98770 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:11:34 +0000
Subject: [PATCH 61/78] fix: set each element of array arguments of points,
 vectors, normals and matrices

All elements of such an array argument of a shader got the value of the first.
---
 libs/shadervm/shadervm.cpp | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/libs/shadervm/shadervm.cpp b/libs/shadervm/shadervm.cpp
index 0ffc521..6665066 100644
--- a/libs/shadervm/shadervm.cpp
+++ b/libs/shadervm/shadervm.cpp
@@ -1790,31 +1790,34 @@ void CqShaderVM::InitialiseParameters( )
 		while ( count-- > 0 )
 		{
 			// Get the specified value out.
+			const IqShaderData* pStoredVal = m_StoredArguments[i].m_Value;
+			if ( pArray )
+				pStoredVal = m_StoredArguments[i].m_Value->ArrayEntry(arrayindex);
 			IqShaderData* pVMVal = CreateTemporaryStorage(m_StoredArguments[i].m_Value->Type(), m_StoredArguments[i].m_Value->Class());
 
 			// If it is a color or a point, ensure it is the correct 'space'
 			if ( pVMVal->Type() == type_point || pVMVal->Type() == type_hpoint )
 			{
 				CqVector3D p;
-				m_StoredArguments[i].m_Value->GetPoint( p, 0 );
+				pStoredVal->GetPoint( p, 0 );
 				pVMVal->SetPoint( pointTrans * p );
 			}
 			else if ( pVMVal->Type() == type_normal )
 			{
 				CqVector3D p;
-				m_StoredArguments[i].m_Value->GetNormal( p, 0 );
+				pStoredVal->GetNormal( p, 0 );
 				pVMVal->SetNormal( normalTrans * p );
 			}
 			else if ( pVMVal->Type() == type_vector )
 			{
 				CqVector3D p;
-				m_StoredArguments[i].m_Value->GetVector( p, 0 );
+				pStoredVal->GetVector( p, 0 );
 				pVMVal->SetVector( vectorTrans * p );
 			}
 			else if ( pVMVal->Type() == type_matrix )
 			{
 				CqMatrix m;
-				m_StoredArguments[i].m_Value->GetMatrix( m, 0 );
+				pStoredVal->GetMatrix( m, 0 );
 				pVMVal->SetMatrix( pointTrans * m );
 			}
 			else
-- 
2.43.0


From 87834ffb002ac078115404ed91bb2ce76ccaf296 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:11:34 +0000
Subject: [PATCH 62/78] fix: transform all elements of array primitive
 variables

Only as many values as there are points were transformed, which leaves out
elements of arrays of points, vectors and normals.
---
 libs/core/geometry/surface.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/libs/core/geometry/surface.cpp b/libs/core/geometry/surface.cpp
index 2139179..99d485f 100644
--- a/libs/core/geometry/surface.cpp
+++ b/libs/core/geometry/surface.cpp
@@ -633,28 +633,28 @@ void	CqSurface::Transform( const CqMatrix& matTx, const CqMatrix& matITTx, const
 		if ( ( *iUP ) ->Type() == type_point )
 		{
 			CqParameterTyped<CqVector3D, CqVector3D>* pTPV = static_cast<CqParameterTyped<CqVector3D, CqVector3D>*>( ( *iUP ) );
-			TqInt size = ( *iUP ) ->Size();
+			TqInt size = ( *iUP ) ->Size() * ( *iUP ) ->ArrayLength();
 			for ( i = 0; i < size; i++ )
 				pTPV->pValue() [ i ] = matTx * pTPV->pValue() [ i ];
 		}
 		else if ( ( *iUP ) ->Type() == type_normal )
 		{
 			CqParameterTyped<CqVector3D, CqVector3D>* pTPV = static_cast<CqParameterTyped<CqVector3D, CqVector3D>*>( ( *iUP ) );
-			TqInt size = ( *iUP ) ->Size();
+			TqInt size = ( *iUP ) ->Size() * ( *iUP ) ->ArrayLength();
 			for ( i = 0; i < size; i++ )
 				pTPV->pValue() [ i ] = matITTx * pTPV->pValue() [ i ];
 		}
 		if ( ( *iUP ) ->Type() == type_vector )
 		{
 			CqParameterTyped<CqVector3D, CqVector3D>* pTPV = static_cast<CqParameterTyped<CqVector3D, CqVector3D>*>( ( *iUP ) );
-			TqInt size = ( *iUP ) ->Size();
+			TqInt size = ( *iUP ) ->Size() * ( *iUP ) ->ArrayLength();
 			for ( i = 0; i < size; i++ )
 				pTPV->pValue() [ i ] = matRTx * pTPV->pValue() [ i ];
 		}
 		if ( ( *iUP ) ->Type() == type_hpoint )
 		{
 			CqParameterTyped<CqVector4D, CqVector3D>* pTPV = static_cast<CqParameterTyped<CqVector4D, CqVector3D>*>( ( *iUP ) );
-			TqInt size = ( *iUP ) ->Size();
+			TqInt size = ( *iUP ) ->Size() * ( *iUP ) ->ArrayLength();
 			for ( i = 0; i < size; i++ )
 				pTPV->pValue() [ i ] = matTx * pTPV->pValue() [ i ];
 		}
-- 
2.43.0


From 2c9ff7497cea1d3184bbab58145d0fcc3d66c08d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:16:35 +0000
Subject: [PATCH 63/78] fix: restore array parameters of shaders between
 primitives

---
 libs/shadervm/shadervariable.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/libs/shadervm/shadervariable.h b/libs/shadervm/shadervariable.h
index bb2e051..438ee9a 100644
--- a/libs/shadervm/shadervariable.h
+++ b/libs/shadervm/shadervariable.h
@@ -153,7 +153,7 @@ class CqShaderVariableArray: public CqShaderVariable
 		}
 		/** Copy constructor.
 		 */
-		CqShaderVariableArray( const CqShaderVariableArray& From ) : CqShaderVariable( From.m_strName.c_str() )
+		CqShaderVariableArray( const CqShaderVariableArray& From ) : CqShaderVariable( From )
 		{
 			m_aVariables.resize( From.m_aVariables.size() );
 			for ( TqUint i = 0; i < From.m_aVariables.size(); i++ )
@@ -366,7 +366,9 @@ class CqShaderVariableArray: public CqShaderVariable
 		 */
 		virtual	void	SetValueFromVariable( const IqShaderData* pVal )
 		{
-			m_aVariables[ 0 ] ->SetValueFromVariable( pVal );
+			TqInt count = min<TqInt>( pVal->ArrayLength(), m_aVariables.size() );
+			for ( TqInt i = 0; i < count; i++ )
+				m_aVariables[ i ] ->SetValueFromVariable( const_cast<IqShaderData*>( pVal ) ->ArrayEntry( i ) );
 		}
 		/** Set the all SIMD data ased on a state vector, only indexes whose bit is set are modified.
 		 * \param pVal The stack entry to assign.
-- 
2.43.0


From 8cdebf3c945e7183e05dc0a9faf21b6f38170cea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:17:44 +0000
Subject: [PATCH 64/78] fix: EXR driver places the pixels of a cropped image in
 its data window

---
 tools/displays/exr/d_exr.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tools/displays/exr/d_exr.cpp b/tools/displays/exr/d_exr.cpp
index 26e3431..ef18334 100644
--- a/tools/displays/exr/d_exr.cpp
+++ b/tools/displays/exr/d_exr.cpp
@@ -349,7 +349,7 @@ Image::writePixels (int xMin, int xMaxPlusone,
 		_scanlinesReceived[yMin] = 0;
 	}
 
-	toBase = &(_scanlines[yMin][0]) + _bufferPixelSize * xMin;
+	toBase = &(_scanlines[yMin][0]) + _bufferPixelSize * (xMin - _bufferXMin);
 	toInc = _bufferPixelSize;
 
 	for(LayerChannelList::iterator i = layers()[layerName].channelList.begin(), e = layers()[layerName].channelList.end(); i != e; ++i)
-- 
2.43.0


From 4f413935153e7b1ba6f8455124ebfc679b2783a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:17:44 +0000
Subject: [PATCH 65/78] fix: BMP info header has 32 bit fields

---
 tools/displays/sdcBMP/d_sdcBMP.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/tools/displays/sdcBMP/d_sdcBMP.cpp b/tools/displays/sdcBMP/d_sdcBMP.cpp
index 1be42ba..0dc390f 100644
--- a/tools/displays/sdcBMP/d_sdcBMP.cpp
+++ b/tools/displays/sdcBMP/d_sdcBMP.cpp
@@ -65,14 +65,14 @@ typedef struct tagRGBQUAD { // rgbq
 
 typedef struct tagBITMAPINFOHEADER{ // bmih 
     int     biSize; 
-    long    biWidth; 
-    long    biHeight; 
+    int     biWidth; 
+    int     biHeight; 
     short   biPlanes; 
     short   biBitCount;
     int     biCompression; 
     int     biSizeImage; 
-    long    biXPelsPerMeter; 
-    long    biYPelsPerMeter; 
+    int     biXPelsPerMeter; 
+    int     biYPelsPerMeter; 
     int     biClrUsed; 
     int     biClrImportant; 
 } BITMAPINFOHEADER; 
-- 
2.43.0


From 1beb0360c605287adbbb493b3d557d9a8662c75a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:17:44 +0000
Subject: [PATCH 66/78] fix: BMP driver places the pixels of a cropped image
 from its origin

---
 tools/displays/sdcBMP/d_sdcBMP.cpp | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/tools/displays/sdcBMP/d_sdcBMP.cpp b/tools/displays/sdcBMP/d_sdcBMP.cpp
index 0dc390f..7c55356 100644
--- a/tools/displays/sdcBMP/d_sdcBMP.cpp
+++ b/tools/displays/sdcBMP/d_sdcBMP.cpp
@@ -98,6 +98,7 @@ typedef struct
 	BITMAPINFO        bmi;
 	char              *ImageData;
 	int               Channels;
+	int               Origin[2];
 	int               RowSize;
 	int               PixelBytes;
 	long              TotalPixels;
@@ -183,6 +184,15 @@ extern "C" PtDspyError DspyImageOpen(PtDspyImageHandle    *image,
 	g_Data.FileName = strdup(filename);
 	g_Data.Channels = formatCount;
 
+	// Pixels of a cropped image are numbered from the origin of the crop window.
+
+	for ( int i = 0; i < paramCount; i++ )
+	{
+		if ( parameters[i].vtype == 'i' && parameters[i].vcount == 2 &&
+		     strcmp(parameters[i].name, "origin") == 0 )
+			memcpy(g_Data.Origin, parameters[i].value, sizeof(g_Data.Origin));
+	}
+
 	g_Data.PixelBytes = 3; // One byte for red, one for green, and one for blue.
 
 	g_Data.bmi.bmiHeader.biSize        = sizeof(BITMAPINFOHEADER);
@@ -413,8 +423,8 @@ extern "C" PtDspyError DspyImageData(PtDspyImageHandle image,
 	}
 
 	spot  = pData->bfh.bfOffBits +
-	        (pData->RowSize * (pData->bmi.bmiHeader.biHeight - ymin - 1));
-	spot += pData->PixelBytes * xmin;
+	        (pData->RowSize * (pData->bmi.bmiHeader.biHeight - (ymin - pData->Origin[1]) - 1));
+	spot += pData->PixelBytes * (xmin - pData->Origin[0]);
 
 	if ( fseek(pData->fp, spot, SEEK_SET) != 0 )
 	{
-- 
2.43.0


From 78ced026dd84c9c348560e92cfe104d874c9fca7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:17:54 +0000
Subject: [PATCH 67/78] fix: mark 32 bit integer samples as such in TIFF files

---
 tools/displays/file/display.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/tools/displays/file/display.cpp b/tools/displays/file/display.cpp
index 67a9377..9ea4746 100644
--- a/tools/displays/file/display.cpp
+++ b/tools/displays/file/display.cpp
@@ -393,6 +393,8 @@ void WriteTIFF(const std::string& filename, SqDisplayInstance* image)
 				TIFFSetField( pOut, TIFFTAG_SAMPLEFORMAT, SAMPLEFORMAT_UINT );
 				TIFFSetField( pOut, TIFFTAG_BITSPERSAMPLE, 16 );
 			}
+			else if (image->m_format == PkDspyUnsigned32)
+				TIFFSetField( pOut, TIFFTAG_SAMPLEFORMAT, SAMPLEFORMAT_UINT );
 
 			TIFFSetField( pOut, TIFFTAG_SAMPLESPERPIXEL, image->m_iFormatCount );
 
-- 
2.43.0


From f2641162ae8ae481c85c46eeaba09d87795cc5cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:19:43 +0000
Subject: [PATCH 68/78] fix: keep infinite depths in half float EXR files

---
 tools/displays/exr/d_exr.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/tools/displays/exr/d_exr.cpp b/tools/displays/exr/d_exr.cpp
index ef18334..e26337c 100644
--- a/tools/displays/exr/d_exr.cpp
+++ b/tools/displays/exr/d_exr.cpp
@@ -150,8 +150,10 @@ half                halfID( half x )
 	return x;
 }
 
-halfFunction <half> id( halfID );
-halfFunction <half> piz12( round12log );
+halfFunction <half> id( halfID, -HALF_MAX, HALF_MAX, 0,
+						half::posInf(), half::negInf(), half::qNan() );
+halfFunction <half> piz12( round12log, -HALF_MAX, HALF_MAX, 0,
+						half::posInf(), half::negInf(), half::qNan() );
 
 struct SqImageLayerChannel
 {
-- 
2.43.0


From 06bdecc498d682d4833886bb3653878e3d4a2380 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:19:28 +0000
Subject: [PATCH 69/78] fix: options copied for frame and world blocks shared
 and deleted one imager shader

---
 libs/core/options.cpp | 18 +++++++-----------
 libs/core/options.h   |  2 +-
 2 files changed, 8 insertions(+), 12 deletions(-)

diff --git a/libs/core/options.cpp b/libs/core/options.cpp
index a012916..e02cdf3 100644
--- a/libs/core/options.cpp
+++ b/libs/core/options.cpp
@@ -192,8 +192,7 @@ void CqOptions::InitialiseCamera()
 
 
 CqOptions::CqOptions() :
-		m_funcFilter( RiGaussianFilter ),
-		m_pshadImager( NULL )
+		m_funcFilter( RiGaussianFilter )
 {
 	InitialiseDefaultOptions();
 }
@@ -203,8 +202,7 @@ CqOptions::CqOptions() :
  */
 
 CqOptions::CqOptions( const CqOptions& From ) :
-		m_funcFilter( RiGaussianFilter ),
-		m_pshadImager( NULL )
+		m_funcFilter( RiGaussianFilter )
 {
 	*this = From;
 }
@@ -672,9 +670,7 @@ TqInt CqOptions::getParameterArraySize(const char* strName, const char* strParam
 
 void CqOptions::SetpshadImager( const boost::shared_ptr<IqShader>& pshadImager )
 {
-	delete m_pshadImager;
-
-	m_pshadImager = new CqImagersource(pshadImager, true);
+	m_pshadImager.reset(new CqImagersource(pshadImager, true));
         m_pshadImager->pShader()->PrepareDefArgs();
 }
 
@@ -702,7 +698,7 @@ void CqOptions::InitialiseColorImager( const CqRegion& DRegion, IqChannelBuffer*
 {
 	// Each time with finished up a bucket; we will execute the imager shader
 	// on the gridsize about the same size as the bucket
-	if ( m_pshadImager != NULL )
+	if ( m_pshadImager )
 	{
 		m_pshadImager->Initialise( DRegion, buffer );
 	}
@@ -719,7 +715,7 @@ CqColor CqOptions::GetColorImager( TqFloat x, TqFloat y )
 {
 	CqColor result( 0, 0, 0 );
 
-	if ( m_pshadImager != NULL )
+	if ( m_pshadImager )
 	{
 		// get the color from the current imager than
 		result = m_pshadImager->Color( x, y );
@@ -739,7 +735,7 @@ TqFloat CqOptions::GetAlphaImager( TqFloat x, TqFloat y )
 {
 	TqFloat result = 1.0;
 
-	if ( m_pshadImager != NULL )
+	if ( m_pshadImager )
 	{
 		// get the color from the current imager than
 		result = m_pshadImager->Alpha( x, y );
@@ -761,7 +757,7 @@ CqColor CqOptions::GetOpacityImager( TqFloat x, TqFloat y )
 {
 	CqColor result = gColWhite;
 
-	if ( m_pshadImager != NULL )
+	if ( m_pshadImager )
 	{
 		// get the opacity from the current imager than
 		result = m_pshadImager->Opacity( x, y );
diff --git a/libs/core/options.h b/libs/core/options.h
index 1c4319e..5035003 100644
--- a/libs/core/options.h
+++ b/libs/core/options.h
@@ -158,7 +158,7 @@ class CqOptions : public IqOptions
 		std::vector<boost::shared_ptr<CqNamedParameterList> >	m_aOptions;	///< Vector of user specified options.
 
 		RtFilterFunc m_funcFilter;						///< Pointer to the pixel filter function.
-		CqImagersource* m_pshadImager;		///< Pointer to the imager shader.
+		boost::shared_ptr<CqImagersource> m_pshadImager;		///< Pointer to the imager shader.
 }
 ;
 
-- 
2.43.0


From ba997eaa2391c2fd3f620d62f2cf6af123faa0d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:48:20 +0000
Subject: [PATCH 70/78] fix: Imager "null" left the imager in force

---
 libs/core/api/ri.cpp  | 2 ++
 libs/core/options.cpp | 8 ++++++--
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/libs/core/api/ri.cpp b/libs/core/api/ri.cpp
index c331714..f553b55 100644
--- a/libs/core/api/ri.cpp
+++ b/libs/core/api/ri.cpp
@@ -896,6 +896,8 @@ RtVoid RiCxxCore::Imager(RtConstToken name, const ParamList& pList)
 		if(pMultipass && !pMultipass[0])
 			pshadImager->PrepareShaderForUse();
 	}
+	else if ( strcmp( name, "null" ) == 0 )
+		QGetRenderContext()->poptWriteCurrent()->SetpshadImager( pshadImager );
 }
 
 
diff --git a/libs/core/options.cpp b/libs/core/options.cpp
index e02cdf3..d4a4c74 100644
--- a/libs/core/options.cpp
+++ b/libs/core/options.cpp
@@ -670,8 +670,12 @@ TqInt CqOptions::getParameterArraySize(const char* strName, const char* strParam
 
 void CqOptions::SetpshadImager( const boost::shared_ptr<IqShader>& pshadImager )
 {
-	m_pshadImager.reset(new CqImagersource(pshadImager, true));
-        m_pshadImager->pShader()->PrepareDefArgs();
+	m_pshadImager.reset();
+	if(pshadImager)
+	{
+		m_pshadImager.reset(new CqImagersource(pshadImager, true));
+		m_pshadImager->pShader()->PrepareDefArgs();
+	}
 }
 
 
-- 
2.43.0


From 418da579d1958de1fbff654e4775e85faafe94bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:48:20 +0000
Subject: [PATCH 71/78] fix: camera motion keys leaked into the transforms of
 objects

---
 libs/core/api/ri.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/libs/core/api/ri.cpp b/libs/core/api/ri.cpp
index f553b55..b1a8e39 100644
--- a/libs/core/api/ri.cpp
+++ b/libs/core/api/ri.cpp
@@ -629,6 +629,8 @@ RtVoid RiCxxCore::WorldBegin()
 	QGetRenderContext()->textureCache().setCurrToWorldMatrix(currToWorldMat);
 
 	// Reset the current transformation to identity, this now represents the object-->world transform.
+	// None of the motion of the camera belongs to it.
+	QGetRenderContext() ->pconCurrent() ->ptransSetCurrent( CqTransformPtr( new CqTransform() ) );
 	QGetRenderContext() ->ptransSetTime( CqMatrix() );
 
 	// Store the initial object transformation
-- 
2.43.0


From 708b07f1825607676ba970a0cf884e2411ae0769 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:48:20 +0000
Subject: [PATCH 72/78] fix: a moving transform evaluated between its keys gave
 the earlier key

---
 libs/core/transform.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/libs/core/transform.cpp b/libs/core/transform.cpp
index 7330fc4..153c914 100644
--- a/libs/core/transform.cpp
+++ b/libs/core/transform.cpp
@@ -374,8 +374,12 @@ SqTransformation CqTransform::ConcatMotionObjects( const SqTransformation& A, co
 
 SqTransformation CqTransform::LinearInterpolateMotionObjects( TqFloat Fraction, const SqTransformation& A, const SqTransformation& B ) const
 {
-	// TODO: Should we do anything with this???
-	return ( A );
+	SqTransformation result( A );
+	result.m_matTransform.SetfIdentity( false );
+	for ( TqInt row = 0; row < 4; row++ )
+		for ( TqInt col = 0; col < 4; col++ )
+			result.m_matTransform[ row ][ col ] += Fraction * ( B.m_matTransform[ row ][ col ] - A.m_matTransform[ row ][ col ] );
+	return ( result );
 }
 
 
-- 
2.43.0


From dc5ba78db4604e31831a995ca35551a4f2d71e06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:48:20 +0000
Subject: [PATCH 73/78] fix: merged motion keyframes of a grid were misnumbered
 and the first overwritten

---
 libs/core/micropolygon.cpp | 42 ++++++++++++++------------------------
 1 file changed, 15 insertions(+), 27 deletions(-)

diff --git a/libs/core/micropolygon.cpp b/libs/core/micropolygon.cpp
index aa12051..8d0065e 100644
--- a/libs/core/micropolygon.cpp
+++ b/libs/core/micropolygon.cpp
@@ -672,7 +672,11 @@ void CqMicroPolyGrid::Split( long xmin, long xmax, long ymin, long ymax )
 		for(iTime = 0; iTime < cameraTimes; iTime++)
 			keyframeTimes[cameraTransform->Time(iTime)] = iTime;
 
-	TqInt tTime = keyframeTimes.size();
+	// Number the merged keyframes in order of time.
+	std::map<TqFloat, TqInt>::iterator keyFrame;
+	TqInt tTime = 0;
+	for ( keyFrame = keyframeTimes.begin(); keyFrame!=keyframeTimes.end(); keyFrame++ )
+		keyFrame->second = tTime++;
 	std::vector<std::vector<CqVector3D> > aaPtimes;
 	aaPtimes.resize( tTime );
 
@@ -681,7 +685,6 @@ void CqMicroPolyGrid::Split( long xmin, long xmax, long ymin, long ymax )
 	TqInt gsmin1;
 	gsmin1 = m_pShaderExecEnv->shadingPointCount() - 1;
 
-	std::map<TqFloat, TqInt>::iterator keyFrame;
 	for ( keyFrame = keyframeTimes.begin(); keyFrame!=keyframeTimes.end(); keyFrame++ )
 	{
 		QGetRenderContext() ->matSpaceToSpace( "object", "camera", NULL, pSurface() ->pTransform().get(), keyFrame->first, matObjectToCameraT );
@@ -693,8 +696,11 @@ void CqMicroPolyGrid::Split( long xmin, long xmax, long ymin, long ymax )
 
 			// Only do the complex transform if motion blurred.
 			//Point = matObjectToCameraT * matCameraToObject0 * Point;
-			Point = matCameraToObject0 * Point;
-			Point = matObjectToCameraT * Point;
+			if ( tTime > 1 )
+			{
+				Point = matCameraToObject0 * Point;
+				Point = matObjectToCameraT * Point;
+			}
 
 			// Make sure to retain camera space 'z' coordinate.
 			TqFloat zdepth = Point.z();
@@ -720,33 +726,14 @@ void CqMicroPolyGrid::Split( long xmin, long xmax, long ymin, long ymax )
 		m_TriangleSplitLine.AddTimeSlot(keyFrame->first, sl );
 	}
 
+	// P itself stays at the position shaded, which need not be that of any key.
 	for ( i = gsmin1; i >= 0; i-- )
 	{
-		aaPtimes[ 0 ].resize( gsmin1 + 1 );
 		// Make sure to retain camera space 'z' coordinate.
 		TqFloat zdepth = pP[ i ].z();
-		aaPtimes[ 0 ][ i ] = matCameraToRaster * pP[ i ];
-		aaPtimes[ 0 ][ i ].z( zdepth );
-		pP[ i ] = aaPtimes[ 0 ][ i ];
-	}
-
-	SqTriangleSplitLine sl;
-	CqVector3D v0, v1, v2;
-	v0 = aaPtimes[ 0 ][ 0 ];
-	v1 = aaPtimes[ 0 ][ cu ];
-	v2 = aaPtimes[ 0 ][ cv * ( cu + 1 ) ];
-	// Check for clockwise, swap if not.
-	if( ( ( v1.x() - v0.x() ) * ( v2.y() - v0.y() ) - ( v1.y() - v0.y() ) * ( v2.x() - v0.x() ) ) >= 0 )
-	{
-		sl.m_TriangleSplitPoint1 = v1;
-		sl.m_TriangleSplitPoint2 = v2;
-	}
-	else
-	{
-		sl.m_TriangleSplitPoint1 = v2;
-		sl.m_TriangleSplitPoint2 = v1;
+		pP[ i ] = matCameraToRaster * pP[ i ];
+		pP[ i ].z( zdepth );
 	}
-	m_TriangleSplitLine.AddTimeSlot(keyframeTimes.begin()->first, sl );
 
 	AQSIS_TIMER_STOP(Project_points);
 
@@ -1731,7 +1718,8 @@ void CqMicroPolygonMotion::BuildBoundList(TqUint timeRanges)
 		const CqBound& end1 = m_Keys[endKey]->GetBound();
 		TqFloat end1Time = m_Times[endKey];
 
-		TqFloat mix = (time - end0Time) / (end1Time - end0Time);
+		// Before the first key and after the last the micropolygon is still.
+		TqFloat mix = clamp((time - end0Time) / (end1Time - end0Time), 0.0f, 1.0f);
 		CqBound mid(end0);
 		mid.vecMin() += mix * (end1.vecMin() - end0.vecMin());
 		mid.vecMax() += mix * (end1.vecMax() - end0.vecMax());
-- 
2.43.0


From ac1c48abb5eea16a748d5f5e6c3824cc8798a0bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:48:20 +0000
Subject: [PATCH 74/78] fix: moving points were shaded and bound at the wrong
 times

---
 libs/core/api/ri.cpp          |  6 ++--
 libs/core/geometry/points.cpp | 62 ++++++++++++++++-------------------
 libs/core/geometry/points.h   |  2 +-
 3 files changed, 32 insertions(+), 38 deletions(-)

diff --git a/libs/core/api/ri.cpp b/libs/core/api/ri.cpp
index b1a8e39..53b4f54 100644
--- a/libs/core/api/ri.cpp
+++ b/libs/core/api/ri.cpp
@@ -2093,9 +2093,9 @@ RtVoid RiCxxCore::Points(const ParamList& pList)
 		// Transform the points into camera space for processing,
 		// This needs to be done before initialising the KDTree as the tree must be formulated in 'current' (camera) space.
 		CqMatrix matOtoW, matNOtoW, matVOtoW;
-		QGetRenderContext() ->matSpaceToSpace( "object", "world", NULL, pPointsClass->pTransform().get(), pPointsClass->pTransform() ->Time(0), matOtoW );
-		QGetRenderContext() ->matNSpaceToSpace( "object", "world", NULL, pPointsClass->pTransform().get(), pPointsClass->pTransform() ->Time(0), matNOtoW );
-		QGetRenderContext() ->matVSpaceToSpace( "object", "world", NULL, pPointsClass->pTransform().get(), pPointsClass->pTransform() ->Time(0), matVOtoW );
+		QGetRenderContext() ->matSpaceToSpace( "object", "world", NULL, pPointsClass->pTransform().get(), QGetRenderContext()->Time(), matOtoW );
+		QGetRenderContext() ->matNSpaceToSpace( "object", "world", NULL, pPointsClass->pTransform().get(), QGetRenderContext()->Time(), matNOtoW );
+		QGetRenderContext() ->matVSpaceToSpace( "object", "world", NULL, pPointsClass->pTransform().get(), QGetRenderContext()->Time(), matVOtoW );
 		pPointsClass->Transform( matOtoW, matNOtoW, matVOtoW);
 
 		pSurface = boost::shared_ptr<CqPoints>( new CqPoints( npoints, pPointsClass ) );
diff --git a/libs/core/geometry/points.cpp b/libs/core/geometry/points.cpp
index f67f533..859e6eb 100644
--- a/libs/core/geometry/points.cpp
+++ b/libs/core/geometry/points.cpp
@@ -484,9 +484,9 @@ void CqMicroPolyGridPoints::Split( long xmin, long xmax, long ymin, long ymax )
 	ADDREF( this );
 
 	CqMatrix matCameraToObject0;
-	QGetRenderContext() ->matSpaceToSpace( "camera", "object", NULL, pSurface()->pTransform().get(), 0, matCameraToObject0 );
+	QGetRenderContext() ->matSpaceToSpace( "camera", "object", NULL, pSurface()->pTransform().get(), QGetRenderContext()->Time(), matCameraToObject0 );
 	CqMatrix matCameraToRaster;
-	QGetRenderContext() ->matSpaceToSpace( "camera", "raster", NULL, NULL, 0, matCameraToRaster );
+	QGetRenderContext() ->matSpaceToSpace( "camera", "raster", NULL, NULL, QGetRenderContext()->Time(), matCameraToRaster );
 
 	// Get a pointer to the surface, so that we can interrogate the "width" parameters.
 	CqPoints* pPoints = static_cast<CqPoints*>( pSurface() );
@@ -591,11 +591,11 @@ void CqMicroPolyGridPoints::Split( long xmin, long xmax, long ymin, long ymax )
 	else
 	{
 		CqMatrix matWorldToObjectT;
-		QGetRenderContext() ->matSpaceToSpace( "world", "object", NULL, &objTrans, 0, matWorldToObjectT );
+		QGetRenderContext() ->matSpaceToSpace( "world", "object", NULL, &objTrans, QGetRenderContext()->Time(), matWorldToObjectT );
 		CqMatrix matObjectToCameraT;
-		QGetRenderContext() ->matSpaceToSpace( "object", "camera", NULL, &objTrans, 0, matObjectToCameraT );
+		QGetRenderContext() ->matSpaceToSpace( "object", "camera", NULL, &objTrans, QGetRenderContext()->Time(), matObjectToCameraT );
 		CqMatrix matNObjectToCameraT;
-		QGetRenderContext() ->matNSpaceToSpace( "object", "camera", NULL, &objTrans, 0, matNObjectToCameraT );
+		QGetRenderContext() ->matNSpaceToSpace( "object", "camera", NULL, &objTrans, QGetRenderContext()->Time(), matNObjectToCameraT );
 
 		for ( TqInt iu = 0; iu < cu; iu++ )
 		{
@@ -705,12 +705,10 @@ void CqMotionMicroPolyGridPoints::Split( long xmin, long xmax, long ymin, long y
 
 	TqInt cu = pGridA->uGridRes();	// Only need cu, as we know cv is 1.
 
-	CqMatrix matCameraToObject0;
-	QGetRenderContext() ->matSpaceToSpace( "camera", "object", NULL, pSurface()->pTransform().get(), pSurface()->pTransform()->Time(0), matCameraToObject0 );
 	CqMatrix matObjectToCamera;
 	QGetRenderContext() ->matSpaceToSpace( "object", "camera", NULL, pSurface()->pTransform().get(), pSurface()->pTransform()->Time(0), matObjectToCamera );
 	CqMatrix matCameraToRaster;
-	QGetRenderContext() ->matSpaceToSpace( "camera", "raster", NULL, NULL, pSurface()->pTransform()->Time(0), matCameraToRaster );
+	QGetRenderContext() ->matSpaceToSpace( "camera", "raster", NULL, NULL, QGetRenderContext()->Time(), matCameraToRaster );
 
 	CqMatrix matTx;
 	QGetRenderContext() ->matSpaceToSpace( "object", "camera", NULL, pSurface()->pTransform().get(), pSurface()->pTransform()->Time(0), matTx );
@@ -752,7 +750,7 @@ void CqMotionMicroPolyGridPoints::Split( long xmin, long xmax, long ymin, long y
 		for ( i = gsmin1; i >= 0; i-- )
 		{
 			// This makes sure all our points are in object space.
-			aaPtimes[ iTime ][ i ] = matCameraToObject0 * pP[ i ];
+			aaPtimes[ iTime ][ i ] = matCameraToObjectT * pP[ i ];
 		}
 	}
 
@@ -840,38 +838,34 @@ void CqMotionMicroPolyGridPoints::Split( long xmin, long xmax, long ymin, long y
 
 void CqMicroPolygonMotionPoints::BuildBoundList( TqUint timeRanges )
 {
+	TqFloat opentime = QGetRenderContext() ->poptCurrent()->GetFloatOption( "System", "Shutter" ) [ 0 ];
+	TqFloat closetime = QGetRenderContext() ->poptCurrent()->GetFloatOption( "System", "Shutter" ) [ 1 ];
+
 	m_BoundList.Clear();
 
 	assert( NULL != m_Keys[0] );
 
-	CqBound start = m_Keys[0]->GetBound();
-	TqFloat	startTime = m_Times[ 0 ];
-	TqInt cTimes = m_Keys.size();
-	for ( TqInt i = 1; i < cTimes; i++ )
+	// Build a bound for each of a number of equal parts of the shutter time.
+	TqInt divisions = max<TqInt>(1, min<TqInt>(4, timeRanges));
+	TqFloat dt = ( closetime - opentime ) / divisions;
+	TqInt lastKey = m_Keys.size() - 1;
+	m_BoundList.SetSize( divisions );
+	for ( TqInt d = 0; d < divisions; d++ )
 	{
-		CqBound end = m_Keys[i]->GetBound();
-		CqBound mid0( start );
-		CqBound mid1;
-		TqFloat endTime = m_Times[ i ];
-		TqFloat time = startTime;
-
-		TqInt d;
-		// arbitary number of divisions, should be related to screen size of blur
-		TqInt divisions = 4;
-		TqFloat delta = 1.0f / static_cast<TqFloat>( divisions );
-		m_BoundList.SetSize( divisions );
-		for ( d = 1; d <= divisions; d++ )
+		TqFloat startTime = opentime + d * dt;
+		TqFloat endTime = startTime + dt;
+		// The bound holds all the keys from the last one before the start of
+		// this part to the first one after its end.
+		TqInt startKey = 0;
+		while ( startKey < lastKey && m_Times[ startKey + 1 ] <= startTime )
+			++startKey;
+		CqBound bound( m_Keys[ startKey ]->GetBound() );
+		for ( TqInt i = startKey; i < lastKey && m_Times[ i ] < endTime; i++ )
 		{
-			mid1.vecMin() = delta * ( end.vecMin() - start.vecMin() ) + start.vecMin();
-			mid1.vecMax() = delta * ( end.vecMax() - start.vecMax() ) + start.vecMax();
-			mid0.Encapsulate(&mid1);
-			m_BoundList.Set( d-1, mid0, time );
-			time = delta * ( endTime - startTime ) + startTime;
-			mid0 = mid1;
-			delta += delta;
+			CqBound next( m_Keys[ i + 1 ]->GetBound() );
+			bound.Encapsulate( &next );
 		}
-		start = end;
-		startTime = endTime;
+		m_BoundList.Set( d, bound, startTime );
 	}
 	m_BoundReady = true;
 }
diff --git a/libs/core/geometry/points.h b/libs/core/geometry/points.h
index a803aab..561728d 100644
--- a/libs/core/geometry/points.h
+++ b/libs/core/geometry/points.h
@@ -471,7 +471,7 @@ class CqMicroPolygonMotionPoints : public CqMicroPolygon
 				BuildBoundList( timeRanges );
 			return ( m_BoundList.Size() );
 		}
-		virtual	CqBound			SubBound( TqInt iIndex, TqFloat& time )
+		virtual	CqBound			SubBound( TqInt iIndex, TqFloat& time ) const
 		{
 			if ( !m_BoundReady )
 			{
-- 
2.43.0


From ba1da713d39cf9ed37542acccbccd616399f7e42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:48:20 +0000
Subject: [PATCH 75/78] fix: surfaces bound and placed at time zero when the
 shutter opens at another

---
 libs/core/geometry/surface.cpp |  2 +-
 libs/core/renderer.cpp         | 48 ++++++++++++++++++++++------------
 2 files changed, 33 insertions(+), 17 deletions(-)

diff --git a/libs/core/geometry/surface.cpp b/libs/core/geometry/surface.cpp
index 99d485f..b6ceb30 100644
--- a/libs/core/geometry/surface.cpp
+++ b/libs/core/geometry/surface.cpp
@@ -124,7 +124,7 @@ void CqSurface::AdjustBoundForTransformationMotion( CqBound* B ) const
 	if( keyframeTimes.size() > 1 )
 	{
 		CqMatrix matCameraToObject0;
-		QGetRenderContext() ->matSpaceToSpace( "camera", "object", NULL, pTransform().get(), 0, matCameraToObject0 );
+		QGetRenderContext() ->matSpaceToSpace( "camera", "object", NULL, pTransform().get(), QGetRenderContext()->Time(), matCameraToObject0 );
 		CqBound B0;
 		B0.vecMin() = B->vecMin();
 		B0.vecMax() = B->vecMax();
diff --git a/libs/core/renderer.cpp b/libs/core/renderer.cpp
index c37de60..e8e0753 100644
--- a/libs/core/renderer.cpp
+++ b/libs/core/renderer.cpp
@@ -483,8 +483,10 @@ void	CqRenderer::EndMotionModeBlock()
 		// Copy the current state of the attributes UP the stack as a TransformBegin/End doesn't store them
 		pconParent->m_pattrCurrent = m_pconCurrent->m_pattrCurrent;
 		pconParent->m_ptransCurrent = m_pconCurrent->m_ptransCurrent;
-		m_pconCurrent->EndMotionModeBlock();
+		// The deforming surface is posted with the clock outside the block.
+		boost::shared_ptr<CqModeBlock> pconMotion = m_pconCurrent;
 		m_pconCurrent = pconParent;
+		pconMotion->EndMotionModeBlock();
 	}
 }
 
@@ -1251,6 +1253,32 @@ boost::shared_ptr<IqShader> CqRenderer::CreateShader(
 	}
 }
 
+//----------------------------------------------------------------------
+/** Transform a surface from world to camera space at the given time.
+ */
+static void transformWorldToCamera( CqSurface& surface, TqFloat time )
+{
+	CqMatrix matWtoC, matNWtoC, matVWtoC;
+	QGetRenderContext() ->matSpaceToSpace( "world", "camera", NULL, surface.pTransform().get(), time, matWtoC );
+	QGetRenderContext() ->matNSpaceToSpace( "world", "camera", NULL, surface.pTransform().get(), time, matNWtoC );
+	QGetRenderContext() ->matVSpaceToSpace( "world", "camera", NULL, surface.pTransform().get(), time, matVWtoC );
+	surface.Transform( matWtoC, matNWtoC, matVWtoC );
+}
+
+/** Transform a surface from world to camera space: each key of a deforming
+ * surface where the camera is at its time, others at shutter open.
+ */
+static void transformWorldToCamera( const boost::shared_ptr<CqSurface>& pSurface )
+{
+	if(CqDeformingSurface* deforming = dynamic_cast<CqDeformingSurface*>(pSurface.get()))
+	{
+		for(TqInt i = 0; i < deforming->cTimes(); i++)
+			transformWorldToCamera(*deforming->GetMotionObject(deforming->Time(i)), deforming->Time(i));
+	}
+	else
+		transformWorldToCamera(*pSurface, QGetRenderContext()->Time());
+}
+
 //----------------------------------------------------------------------
 /** Add a new surface to the list of surfaces in the world.
  * \param pSurface A pointer to a CqSurface derived class, surface should at this point be in world space.
@@ -1264,11 +1292,7 @@ void CqRenderer::StorePrimitive( const boost::shared_ptr<CqSurface>& pSurface )
 		m_aWorld.push_back(pSurface);
 	else
 	{
-		CqMatrix matWtoC, matNWtoC, matVWtoC;
-		QGetRenderContext() ->matSpaceToSpace( "world", "camera", NULL, pSurface->pTransform().get(), 0, matWtoC );
-		QGetRenderContext() ->matNSpaceToSpace( "world", "camera", NULL, pSurface->pTransform().get(), 0, matNWtoC );
-		QGetRenderContext() ->matVSpaceToSpace( "world", "camera", NULL, pSurface->pTransform().get(), 0, matVWtoC );
-		pSurface->Transform( matWtoC, matNWtoC, matVWtoC);
+		transformWorldToCamera(pSurface);
 		pSurface->PrepareTrimCurve();
 		PostSurface(pSurface);
 	}
@@ -1280,11 +1304,7 @@ void CqRenderer::PostWorld()
 	{
 		boost::shared_ptr<CqSurface> pSurface = m_aWorld.front();
 		
-		CqMatrix matWtoC, matNWtoC, matVWtoC;
-		QGetRenderContext() ->matSpaceToSpace( "world", "camera", NULL, pSurface->pTransform().get(), 0, matWtoC );
-		QGetRenderContext() ->matNSpaceToSpace( "world", "camera", NULL, pSurface->pTransform().get(), 0, matNWtoC );
-		QGetRenderContext() ->matVSpaceToSpace( "world", "camera", NULL, pSurface->pTransform().get(), 0, matVWtoC );
-		pSurface->Transform( matWtoC, matNWtoC, matVWtoC);
+		transformWorldToCamera(pSurface);
 		pSurface->PrepareTrimCurve();
 		PostSurface(pSurface);
 		m_aWorld.pop_front();
@@ -1298,11 +1318,7 @@ void CqRenderer::PostCloneOfWorld()
 	for(i=m_aWorld.begin(); i!=m_aWorld.end(); i++)
 	{
 		boost::shared_ptr<CqSurface> pSurface((*i)->Clone());
-		CqMatrix matWtoC, matNWtoC, matVWtoC;
-		QGetRenderContext() ->matSpaceToSpace( "world", "camera", NULL, pSurface->pTransform().get(), 0, matWtoC );
-		QGetRenderContext() ->matNSpaceToSpace( "world", "camera", NULL, pSurface->pTransform().get(), 0, matNWtoC );
-		QGetRenderContext() ->matVSpaceToSpace( "world", "camera", NULL, pSurface->pTransform().get(), 0, matVWtoC );
-		pSurface->Transform( matWtoC, matNWtoC, matVWtoC);
+		transformWorldToCamera(pSurface);
 		pSurface->PrepareTrimCurve();
 		PostSurface(pSurface);
 	}
-- 
2.43.0


From 9a9e277677bace8095de2eb259deea892c93a121 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:07:57 +0000
Subject: [PATCH 76/78] fix: midpoint depth missed an opaque surface before a
 kept translucent one

---
 libs/core/imagepixel.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/libs/core/imagepixel.cpp b/libs/core/imagepixel.cpp
index 6c79a12..c345bb0 100644
--- a/libs/core/imagepixel.cpp
+++ b/libs/core/imagepixel.cpp
@@ -271,8 +271,10 @@ void CqImagePixel::Combine( enum EqDepthFilter depthfilter, CqColor zThreshold )
 					if ( depthfilter == Filter_MidPoint )
 					{
 						// Use midpoint for depth
+						// (The second depth may be that of an opaque surface
+						// of which only the occluding depth was kept).
 						if ( sampleData.data.size() > 1 )
-							occlDepth = ( ( opaqueDepths[0] + opaqueDepths[1] ) * 0.5f );
+							occlDepth = ( ( opaqueDepths[0] + min(opaqueDepths[1], sampleData.occlZ) ) * 0.5f );
 						else
 							occlDepth = FLT_MAX;
 					}
-- 
2.43.0


From 7a8a33e55795257f54349455c029938bdee087c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:20:48 +0000
Subject: [PATCH 77/78] fix: names of parameters with trailing space were moved
 while in use

---
 libs/riutil/ri2ricxx.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/libs/riutil/ri2ricxx.cpp b/libs/riutil/ri2ricxx.cpp
index c1a49a3..60a3163 100644
--- a/libs/riutil/ri2ricxx.cpp
+++ b/libs/riutil/ri2ricxx.cpp
@@ -36,6 +36,7 @@
 
 #include <aqsis/riutil/ri2ricxx.h>
 
+#include <deque>
 #include <vector>
 #include <set>
 #include <stack>
@@ -200,7 +201,8 @@ void riToRiCxxEnd()
 namespace {
 
 std::vector<Ri::Param> g_pList;
-std::vector<std::string> g_nameStorage;
+// A deque, since adding names must not move those already in the param list.
+std::deque<std::string> g_nameStorage;
 
 // Build a Ri::ParamList from the corresponding C API (count,tokens[],values[])
 //
@@ -213,6 +215,7 @@ Ri::ParamList buildParamList(RtInt count, RtToken tokens[], RtPointer values[],
     if(count == 0)
         return Ri::ParamList();
     g_pList.clear();
+    g_nameStorage.clear();
     for(int i = 0; i < count; ++i)
     {
         const char* nameBegin = 0;
-- 
2.43.0


From 8d7de013d7822e7f71775d7284f17bce00802aef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:20:49 +0000
Subject: [PATCH 78/78] fix: rejected C calls changed the saved Basis and the
 handle scopes

A rejected Basis even left a step of zero, and the next PatchMesh or Curves
divided by it.
---
 libs/riutil/ri2ricxx.cpp | 37 +++++++++++++++++++------------------
 1 file changed, 19 insertions(+), 18 deletions(-)

diff --git a/libs/riutil/ri2ricxx.cpp b/libs/riutil/ri2ricxx.cpp
index 60a3163..521ea48 100644
--- a/libs/riutil/ri2ricxx.cpp
+++ b/libs/riutil/ri2ricxx.cpp
@@ -298,9 +298,9 @@ extern "C"
 RtObjectHandle RiObjectBegin()
 {
     EXCEPTION_TRY_GUARD
-    g_context->pushAttributes();
     void* handle = 0;
     g_context->api().ObjectBegin(g_context->handles.newHandle(handle));
+    g_context->pushAttributes();
     return handle;
     EXCEPTION_CATCH_GUARD("ObjectBegin")
     return 0;
@@ -354,8 +354,8 @@ RtArchiveHandle RiArchiveBeginV(RtToken name, RtInt count, RtToken tokens[], RtP
     EXCEPTION_TRY_GUARD
     IClassCounts iclassCounts(1,1,1,1,1);
     Ri::ParamList pList = buildParamList(count, tokens, values, iclassCounts);
-    g_context->pushAttributes();
     g_context->api().ArchiveBegin(name, pList);
+    g_context->pushAttributes();
     return name;
     EXCEPTION_CATCH_GUARD("ArchiveBegin")
     return 0;
@@ -468,13 +468,14 @@ $returnType ${cProcName}($formals)
  #end if
     Ri::ParamList pList = buildParamList(count, tokens, values, iclassCounts);
 #end if
+    g_context->api().${procName}($callArgs);
 #if $extraSnippet is not None
+    ## Done last, since a call which is rejected must not change anything.
     $extraSnippet
 #end if
 #if $procName in $pushHandleScopes
     g_context->handles.pushScope();
 #end if
-    g_context->api().${procName}($callArgs);
 #if $procName in $popHandleScopes
     g_context->handles.popScope();
 #end if
@@ -519,9 +520,9 @@ extern "C"
 RtVoid RiFrameBegin(RtInt number)
 {
     EXCEPTION_TRY_GUARD
+    g_context->api().FrameBegin(number);
     g_context->pushAttributes();
     g_context->handles.pushScope();
-    g_context->api().FrameBegin(number);
     EXCEPTION_CATCH_GUARD("FrameBegin")
 }
 
@@ -529,8 +530,8 @@ extern "C"
 RtVoid RiFrameEnd()
 {
     EXCEPTION_TRY_GUARD
-    g_context->popAttributes();
     g_context->api().FrameEnd();
+    g_context->popAttributes();
     g_context->handles.popScope();
     EXCEPTION_CATCH_GUARD("FrameEnd")
 }
@@ -539,9 +540,9 @@ extern "C"
 RtVoid RiWorldBegin()
 {
     EXCEPTION_TRY_GUARD
+    g_context->api().WorldBegin();
     g_context->pushAttributes();
     g_context->handles.pushScope();
-    g_context->api().WorldBegin();
     EXCEPTION_CATCH_GUARD("WorldBegin")
 }
 
@@ -549,8 +550,8 @@ extern "C"
 RtVoid RiWorldEnd()
 {
     EXCEPTION_TRY_GUARD
-    g_context->popAttributes();
     g_context->api().WorldEnd();
+    g_context->popAttributes();
     g_context->handles.popScope();
     EXCEPTION_CATCH_GUARD("WorldEnd")
 }
@@ -753,8 +754,8 @@ extern "C"
 RtVoid RiAttributeBegin()
 {
     EXCEPTION_TRY_GUARD
-    g_context->pushAttributes();
     g_context->api().AttributeBegin();
+    g_context->pushAttributes();
     EXCEPTION_CATCH_GUARD("AttributeBegin")
 }
 
@@ -762,8 +763,8 @@ extern "C"
 RtVoid RiAttributeEnd()
 {
     EXCEPTION_TRY_GUARD
-    g_context->popAttributes();
     g_context->api().AttributeEnd();
+    g_context->popAttributes();
     EXCEPTION_CATCH_GUARD("AttributeEnd")
 }
 
@@ -1049,8 +1050,8 @@ extern "C"
 RtVoid RiResourceBegin()
 {
     EXCEPTION_TRY_GUARD
-    g_context->pushAttributes();
     g_context->api().ResourceBegin();
+    g_context->pushAttributes();
     EXCEPTION_CATCH_GUARD("ResourceBegin")
 }
 
@@ -1058,8 +1059,8 @@ extern "C"
 RtVoid RiResourceEnd()
 {
     EXCEPTION_TRY_GUARD
-    g_context->popAttributes();
     g_context->api().ResourceEnd();
+    g_context->popAttributes();
     EXCEPTION_CATCH_GUARD("ResourceEnd")
 }
 
@@ -1141,8 +1142,8 @@ extern "C"
 RtVoid RiBasis(RtBasis ubasis, RtInt ustep, RtBasis vbasis, RtInt vstep)
 {
     EXCEPTION_TRY_GUARD
-    AttrState& attrs = g_context->attrStack.top(); attrs.ustep = ustep; attrs.vstep = vstep;
     g_context->api().Basis(ubasis, ustep, vbasis, vstep);
+    AttrState& attrs = g_context->attrStack.top(); attrs.ustep = ustep; attrs.vstep = vstep;
     EXCEPTION_CATCH_GUARD("Basis")
 }
 
@@ -1390,8 +1391,8 @@ extern "C"
 RtVoid RiSolidBegin(RtToken type)
 {
     EXCEPTION_TRY_GUARD
-    g_context->pushAttributes();
     g_context->api().SolidBegin(type);
+    g_context->pushAttributes();
     EXCEPTION_CATCH_GUARD("SolidBegin")
 }
 
@@ -1399,8 +1400,8 @@ extern "C"
 RtVoid RiSolidEnd()
 {
     EXCEPTION_TRY_GUARD
-    g_context->popAttributes();
     g_context->api().SolidEnd();
+    g_context->popAttributes();
     EXCEPTION_CATCH_GUARD("SolidEnd")
 }
 
@@ -1408,8 +1409,8 @@ extern "C"
 RtVoid RiObjectEnd()
 {
     EXCEPTION_TRY_GUARD
-    g_context->popAttributes();
     g_context->api().ObjectEnd();
+    g_context->popAttributes();
     EXCEPTION_CATCH_GUARD("ObjectEnd")
 }
 
@@ -1418,8 +1419,8 @@ RtVoid RiMotionBeginV(RtInt N, RtFloat times_in[])
 {
     EXCEPTION_TRY_GUARD
     Ri::FloatArray times(times_in, N);
-    g_context->pushAttributes();
     g_context->api().MotionBegin(times);
+    g_context->pushAttributes();
     EXCEPTION_CATCH_GUARD("MotionBegin")
 }
 
@@ -1427,8 +1428,8 @@ extern "C"
 RtVoid RiMotionEnd()
 {
     EXCEPTION_TRY_GUARD
-    g_context->popAttributes();
     g_context->api().MotionEnd();
+    g_context->popAttributes();
     EXCEPTION_CATCH_GUARD("MotionEnd")
 }
 
@@ -1505,8 +1506,8 @@ extern "C"
 RtVoid RiArchiveEnd()
 {
     EXCEPTION_TRY_GUARD
-    g_context->popAttributes();
     g_context->api().ArchiveEnd();
+    g_context->popAttributes();
     EXCEPTION_CATCH_GUARD("ArchiveEnd")
 }
 ///[[[end]]]
-- 
2.43.0

