// Windows names dll.cpp needs, so that the library interface of the assembler can be compiled here.
#pragma once
#ifdef _WINDLL
#define __declspec(x)
#define __stdcall
typedef void *HANDLE;
typedef unsigned char BYTE;
#ifndef TRUE
#define TRUE 1
#endif
#define DLL_PROCESS_ATTACH 1
#define DLL_THREAD_ATTACH 2
#define DLL_THREAD_DETACH 3
#define DLL_PROCESS_DETACH 0
#define MB_OK 0
#define MessageBox(a, b, c, d) ((void)0)
#endif
