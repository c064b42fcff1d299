#include "config/posix/ush_config.h"
#undef USH_CONFIG_ENABLE_COMMAND_CAT
#undef USH_CONFIG_ENABLE_COMMAND_CD
#undef USH_CONFIG_ENABLE_COMMAND_ECHO
#undef USH_CONFIG_ENABLE_COMMAND_HELP
#undef USH_CONFIG_ENABLE_COMMAND_LS
#undef USH_CONFIG_ENABLE_COMMAND_PWD
#undef USH_CONFIG_ENABLE_COMMAND_XXD
#define USH_CONFIG_ENABLE_COMMAND_CAT 0
#define USH_CONFIG_ENABLE_COMMAND_CD 0
#define USH_CONFIG_ENABLE_COMMAND_ECHO 0
#define USH_CONFIG_ENABLE_COMMAND_HELP 0
#define USH_CONFIG_ENABLE_COMMAND_LS 0
#define USH_CONFIG_ENABLE_COMMAND_PWD 0
#define USH_CONFIG_ENABLE_COMMAND_XXD 0
