#include "h.h"
SETUP(128,16,64)
static const struct ush_file_descriptor f[]={{.name="verylongfilename_very"}};
int main(){ush_init(&u,&d);ush_node_mount(&u,"/",&root,f,1);R("ls\n");puts(out);}
