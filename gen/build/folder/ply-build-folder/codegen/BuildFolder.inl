PLY_STRUCT_BEGIN(ply::build::BuildFolder)
PLY_STRUCT_MEMBER(solutionName)
PLY_STRUCT_MEMBER(cmakeOptions)
PLY_STRUCT_MEMBER(rootTargets)
PLY_STRUCT_MEMBER(makeShared)
PLY_STRUCT_MEMBER(externSelectors)
PLY_STRUCT_MEMBER(activeConfig)
PLY_STRUCT_MEMBER(activeTarget)
PLY_STRUCT_END()

