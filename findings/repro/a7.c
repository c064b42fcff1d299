#include "h.h"
SETUP(64,64,64)
int main(){ush_init(&u,&d);ush_node_mount(&u,"/",&root,0,0);ush_init(&u,&d);ush_node_mount(&u,"/",&root,0,0);alarm(3);R("zzz\n");puts(out);}
