#include "h.h"
SETUP(128,12,64)
static void x(struct ush_object*s,struct ush_file_descriptor const*f,int c,char**v){(void)f;(void)c;(void)v;ush_printf(s,"%s","aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaa");}
static const struct ush_file_descriptor f[]={{.name="p",.exec=x}};
int main(){ush_init(&u,&d);ush_node_mount(&u,"/",&root,f,1);R("p\n");puts(out);}
