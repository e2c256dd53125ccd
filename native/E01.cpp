#include "envmodel.h"
void run_all() { for(int h = 0; h < 60 * g_scale; h++) { g_ctx = ""; Sim s(CK_TREE, 2 + h % 6, 1, 2, 1); s.run(120, { 2, 2, 12, 0, 2, 0, 1, 1 }); } }
