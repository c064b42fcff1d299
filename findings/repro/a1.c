#include "h.h"
SETUP(8,64,64)
static const struct ush_file_descriptor f[]={{.name="verylongfilename_very"}};
int main(){ush_init(&u,&d);ush_node_mount(&u,"/",&root,f,1);R("ve\t");puts(out);}
