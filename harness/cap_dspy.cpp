// A display driver which records every call it gets in the file it is asked to write.
#include <aqsis/aqsis.h>
#include <aqsis/ri/ndspy.h>
#include <cstring>
#include <string>
struct Cap { FILE* f; bool fail; };
static void hex(FILE* f, const unsigned char* p, size_t n) {
    static const char d[] = "0123456789abcdef"; std::string s(2*n, '0');
    for(size_t i = 0; i < n; ++i) { s[2*i] = d[p[i] >> 4]; s[2*i+1] = d[p[i] & 15]; }
    fwrite(s.data(), 1, s.size(), f);
}
extern "C" {
PtDspyError DspyImageOpen(PtDspyImageHandle* image, const char* driver, const char* filename, int width, int height, int nparams,
        const UserParameter* params, int nformats, PtDspyDevFormat* format, PtFlagStuff* flags) {
    Cap* c = new Cap; c->f = fopen(filename, "a"); c->fail = false;
    fprintf(c->f, "O %d %d", width, height);
    for(int i = 0; i < nformats; ++i) fprintf(c->f, " %s:%u", format[i].name, format[i].type & PkDspyMaskType);
    fprintf(c->f, "\n");
    for(int i = 0; i < nparams; ++i) {
        const UserParameter& p = params[i];
        fprintf(c->f, "P %s %c %d", p.name, p.vtype, (int)p.vcount);
        for(int k = 0; k < (int)p.vcount; ++k) {
            if(p.vtype == 'f') fprintf(c->f, " %.9g", ((float*)p.value)[k]);
            else if(p.vtype == 'i') fprintf(c->f, " %d", ((int*)p.value)[k]);
            else if(p.vtype == 's') { fprintf(c->f, " "); const char* s = ((char**)p.value)[k]; hex(c->f, (const unsigned char*)s, strlen(s)); }
        }
        fprintf(c->f, "\n");
        if(!strcmp(p.name, "capscanline") && p.vtype == 'i' && ((int*)p.value)[0]) flags->flags |= PkDspyFlagsWantsScanLineOrder;
        if(!strcmp(p.name, "capreverse") && p.vtype == 'i' && ((int*)p.value)[0]) for(int i = 0; i < nformats/2; ++i) std::swap(format[i], format[nformats-1-i]);
        if(!strcmp(p.name, "captype") && p.vtype == 'i' && ((int*)p.value)[0]) for(int i = 0; i < nformats; ++i) format[i].type = ((int*)p.value)[0];
    }
    fprintf(c->f, "F");
    for(int i = 0; i < nformats; ++i) fprintf(c->f, " %s:%u", format[i].name, format[i].type & PkDspyMaskType);
    fprintf(c->f, "\n");
    *image = c; return PkDspyErrorNone;
}
PtDspyError DspyImageData(PtDspyImageHandle image, int x0, int x1, int y0, int y1, int size, const unsigned char* data) {
    Cap* c = (Cap*)image;
    fprintf(c->f, "D %d %d %d %d %d ", x0, x1, y0, y1, size);
    if(x1 > x0 && y1 > y0 && size > 0) hex(c->f, data, (size_t)(x1-x0)*(y1-y0)*size);
    fprintf(c->f, "\n"); return PkDspyErrorNone;
}
PtDspyError DspyImageClose(PtDspyImageHandle image) { Cap* c = (Cap*)image; fprintf(c->f, "C\n"); fclose(c->f); delete c; return PkDspyErrorNone; }
PtDspyError DspyImageDelayClose(PtDspyImageHandle image) { return DspyImageClose(image); }
PtDspyError DspyImageQuery(PtDspyImageHandle, PtDspyQueryType type, size_t size, void* data) {
    if(type == PkOverwriteQuery) { PtDspyOverwriteInfo o; o.overwrite = 1; o.interactive = 0; if(size > sizeof(o)) size = sizeof(o); memcpy(data, &o, size); return PkDspyErrorNone; }
    if(type == PkSizeQuery) { PtDspySizeInfo o; o.width = 64; o.height = 48; o.aspectRatio = 1; if(size > sizeof(o)) size = sizeof(o); memcpy(data, &o, size); return PkDspyErrorNone; }
    return PkDspyErrorUnsupported;
}
}
