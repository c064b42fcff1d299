#include "h.h"
SETUP(64,64,64)
int main(){ush_init(&u,&d);ush_node_mount(&u,"/",&root,0,0);R("echo \\x41\\x42\n");puts(out);R("echo abc\\x00def\n");puts(out);
static const struct ush_file_descriptor f[]={{.name="abc"},{.name="abd"},{.name="xyz"}}; printf("%d\n",ush_node_mount(&u,"/",&root,f,3)); R(" x\t");puts(out);R("\n");R("ls x\t");puts(out);}
