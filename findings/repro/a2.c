#include "h.h"
SETUP(8,64,64)
static const struct ush_file_descriptor f[]={{.name="abcdefghijk1"},{.name="abcdefghijk2"}};
int main(){ush_init(&u,&d);ush_node_mount(&u,"/",&root,f,2);R("ls a\t");puts(out);}
