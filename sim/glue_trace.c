#include <stdint.h>
__attribute__((visibility("hidden"))) uint64_t *sim_tr_pos;
__attribute__((visibility("hidden"))) uint64_t sim_tr_save[2];
uint64_t **sim_tr_get(void) { return &sim_tr_pos; }
