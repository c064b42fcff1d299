#include "h.h"
SETUP(32,64,64)
static const struct ush_file_descriptor f[]={{.name="aab"},{.name="aac"}};
int main(){ush_init(&u,&d);ush_node_mount(&u,"/",&root,f,2);R("\0\t");puts(out);}
