PLY_ENUM_BEGIN(ply::build::, DynamicLinkage)
PLY_ENUM_IDENTIFIER(None)
PLY_ENUM_IDENTIFIER(Import)
PLY_ENUM_IDENTIFIER(Export)
PLY_ENUM_END()

