/* stand-in for the file the build system generates: single-threaded, without GPU support */
#pragma once
#ifndef MULTI_THREADING_SUPPORT_ENABLED
#define MULTI_THREADING_SUPPORT_ENABLED 0
#endif
#define GPU_SUPPORT_ENABLED 0
