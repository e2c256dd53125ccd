#include "envmodel.h"
void run_all() { for(int h = 0; h < 60 * g_scale; h++) { g_ctx = ""; Sim s(CK_MAPS, 4, 1, 4, 1); s.run(120, { 2, 2, 3, 0, 12, 0, 1, 1 }); } }
