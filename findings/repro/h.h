#include <microshell.h>
#include <string.h>
#include <stdio.h>
static const char *in; static size_t inn, ini; static char out[65536]; static int on;
static int rd(struct ush_object*s,char*c){(void)s; if(ini<inn){*c=in[ini++];return 1;}return 0;}
static int wr(struct ush_object*s,char c){(void)s; out[on++]=c;return 1;}
static const struct ush_io_interface io={rd,wr};
static void run(struct ush_object*u,const char*s,size_t n){in=s;inn=n;ini=0;on=0;int idle=0;long k=0; while(idle<3&&k++<100000){ if(ush_service(u))idle=0; else idle++;} out[on]=0; if(k>=100000)printf("STUCK\n");}
#define R(s) run(&u,s,sizeof(s)-1)
#define SETUP(IN,OUT,PATH) static char ib[IN],ob[OUT]; static const struct ush_descriptor d={.io=&io,.input_buffer=ib,.input_buffer_size=IN,.output_buffer=ob,.output_buffer_size=OUT,.path_max_length=PATH,.hostname="h"}; static struct ush_object u; static struct ush_node_object root,n1,n2;
