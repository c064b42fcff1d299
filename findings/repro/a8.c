#include "h.h"
#include <stdlib.h>
SETUP(64,64,64)
int main(){ush_init(&u,&d);struct ush_node_object*p=malloc(sizeof *p);memset(p,0,sizeof *p);ush_node_mount(&u,"/",&root,0,0);ush_node_mount(&u,"/a",p,0,0);R("cd a\n");puts(out); printf("%d\n",ush_node_unmount(&u,"/a"));free(p);R("pwd\n");puts(out);}
