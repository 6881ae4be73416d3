PLY_STRUCT_BEGIN(ply::web::Contents)
PLY_STRUCT_MEMBER(title)
PLY_STRUCT_MEMBER(linkDestination)
PLY_STRUCT_MEMBER(children)
PLY_STRUCT_END()

