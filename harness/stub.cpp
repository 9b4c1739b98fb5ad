#include <aqsis/aqsis.h>
#include "shaderexecenv/shaderexecenv.h"
namespace Aqsis {
void CqShaderExecEnv::SO_bake3d(IqShaderData*,IqShaderData*,IqShaderData*,IqShaderData*,IqShaderData*,IqShader*,int,IqShaderData**){}
void CqShaderExecEnv::SO_indirectdiffuse(IqShaderData*,IqShaderData*,IqShaderData*,IqShaderData*,IqShader*,int,IqShaderData**){}
void CqShaderExecEnv::SO_occlusion_rt(IqShaderData*,IqShaderData*,IqShaderData*,IqShaderData*,IqShader*,int,IqShaderData**){}
void CqShaderExecEnv::SO_texture3d(IqShaderData*,IqShaderData*,IqShaderData*,IqShaderData*,IqShader*,int,IqShaderData**){}
void clearPointCloudCache(){}
void flushBake3dCache(){}
}
