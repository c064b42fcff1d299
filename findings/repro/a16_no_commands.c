#include "microshell.h"
static int rd(struct ush_object*s,char*c){(void)s;(void)c;return 0;}
static int wr(struct ush_object*s,char c){(void)s;putchar(c);return 1;}
static char ib[32],ob[32];
static const struct ush_io_interface io={.read=rd,.write=wr};
static const struct ush_descriptor d={.io=&io,.input_buffer=ib,.input_buffer_size=32,.output_buffer=ob,.output_buffer_size=32,.path_max_length=32,.hostname="h"};
static struct ush_object o; static struct ush_node_object r;
int main(void){ ush_init(&o,&d); ush_node_mount(&o,"/",&r,NULL,0); for(int i=0;i<200;i++) ush_service(&o); ush_deinit(&o); puts("OK"); return 0;}
