#include "envmodel.h"
void run_all() { for(int h = 0; h < 60 * g_scale; h++) { g_ctx = ""; Sim s(CK_OPS, 1, 4, 2, 4); s.run(120, { 2, 2, 1, 1, 1, 14, 2, 2 }); } }
