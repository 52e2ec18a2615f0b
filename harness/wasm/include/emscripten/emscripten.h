/* Stand-in for Emscripten's header: exported functions stay visible, inline JavaScript is handed to the embedder as text. */
#ifndef VF_EMSCRIPTEN_H
#define VF_EMSCRIPTEN_H
#define EMSCRIPTEN_KEEPALIVE __attribute__((used)) __attribute__((visibility("default")))
int vf_em_asm(const char *code, void *a, unsigned long b);
#define VF_EM_ASM(code, a, b, ...) vf_em_asm(code, (void *)(a), (unsigned long)(b))
#define EM_ASM_INT(code, ...) VF_EM_ASM(#code, __VA_ARGS__, 0, 0)
#define EM_ASM(code, ...) VF_EM_ASM(#code, __VA_ARGS__, 0, 0)
#define MAIN_THREAD_EM_ASM_INT EM_ASM_INT
#endif
