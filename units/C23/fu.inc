/* the real file_util.c over contracts for the operating system's calls */
#include "vf.h"
#include "common_macro.h"
#undef fclose
#include <stdio.h>
#include <string.h>
#include <stdlib.h>
#include <unistd.h>
#include <sys/types.h>
#include <sys/stat.h>
#include "file/file_util.h"
#include "mem/strings.h"
