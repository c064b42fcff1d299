#include "h.h"
SETUP(128,64,16)
int main(){ush_init(&u,&d);ush_node_mount(&u,"/",&root,0,0);R("cd /aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaa\n");puts(out);}
