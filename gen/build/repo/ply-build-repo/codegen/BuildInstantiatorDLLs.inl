PLY_STRUCT_BEGIN(ply::build::DLLSignature)
PLY_STRUCT_MEMBER(signature)
PLY_STRUCT_END()

