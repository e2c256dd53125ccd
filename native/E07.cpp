#include "envmodel.h"
void run_all() { for(int h = 0; h < 60 * g_scale; h++) { g_ctx = ""; Sim s(CK_EVENTS, 4, 4, 3, 2); s.run(120, { 3, 3, 5, 5, 5, 2, 2, 3 }); } }
