#include "h.h"
SETUP(64,64,64)
static size_t g(struct ush_object*s,struct ush_file_descriptor const*f,uint8_t**d){(void)s;(void)f;(void)d;return 0;}
static const struct ush_file_descriptor f[]={{.name="nul",.get_data=g}};
int main(){ush_init(&u,&d);ush_node_mount(&u,"/",&root,f,1);R("cat nul\n");puts(out);}
