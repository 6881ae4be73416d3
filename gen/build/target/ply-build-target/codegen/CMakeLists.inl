PLY_STRUCT_BEGIN(ply::build::CMakeGeneratorOptions)
PLY_STRUCT_MEMBER(generator)
PLY_STRUCT_MEMBER(platform)
PLY_STRUCT_MEMBER(toolset)
PLY_STRUCT_MEMBER(toolchainFile)
PLY_STRUCT_END()

