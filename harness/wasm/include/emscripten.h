/* stand-in for Emscripten's header: JavaScript snippets are passed to the host as text */
#pragma once
extern int vf_em_asm(const char* code, ...);
#define EMSCRIPTEN_KEEPALIVE __attribute__((used, visibility("default")))
#define EM_ASM_INT(code, ...) vf_em_asm(#code, ##__VA_ARGS__)
#define EM_ASM(code, ...) ((void)vf_em_asm(#code, ##__VA_ARGS__))
#define EM_ASM_PTR(code, ...) ((void*)vf_em_asm(#code, ##__VA_ARGS__))
#define MAIN_THREAD_EM_ASM_INT EM_ASM_INT
#define MAIN_THREAD_EM_ASM EM_ASM
