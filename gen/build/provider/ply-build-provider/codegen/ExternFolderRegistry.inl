PLY_STRUCT_BEGIN(ply::build::ExternFolder::Config)
PLY_STRUCT_MEMBER(args)
PLY_STRUCT_MEMBER(success)
PLY_STRUCT_END()

PLY_STRUCT_BEGIN(ply::build::ExternFolder)
PLY_STRUCT_MEMBER(providerName)
PLY_STRUCT_MEMBER(folderArgs)
PLY_STRUCT_MEMBER(success)
PLY_STRUCT_MEMBER(multiConfig)
PLY_STRUCT_END()

