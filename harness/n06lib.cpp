// the utilities under test, in a translation unit of their own
#include "inmost.h"
#include "anifem++/utils/mesh_utils.cpp"
#include "anifem++/utils/utils.cpp"
#include "anifem++/utils/adapt_mesh.cpp"
