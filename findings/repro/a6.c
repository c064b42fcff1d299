#include "h.h"
SETUP(1,64,64)
int main(){ush_init(&u,&d);ush_node_mount(&u,"/",&root,0,0);R("a\n");puts(out);}
