// A procedural in a shared object, for DynamicLoad: renders the archive named by its parameter, or
// (parameter "+name") asks for a further procedural, with its own functions, which renders it.
#include <aqsis/ri/ri.h>
#include <string>
#include <cstdlib>
#include <cstring>
extern "C" {
static void sub(RtPointer d, RtFloat) { RiReadArchive((RtToken)d, NULL, RI_NULL); }
static void rel(RtPointer d) { free(d); }
void* ConvertParameters(char* s) { return strdup(s); }
void Subdivide(void* d, float)
{
	char* s = (char*)d;
	if(*s == '+') { RtBound b = {-1000, 1000, -1000, 1000, 50, 150}; RiProcedural(strdup(s + 1), b, (RtProcSubdivFunc)sub, (RtProcFreeFunc)rel); }
	else RiReadArchive(s, NULL, RI_NULL);
}
void Free(void* d) { free(d); }
}
