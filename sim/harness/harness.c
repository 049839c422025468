// Simulated contract shell: operand arena (with guard space) and an embedded data section, standing in
// for what the compiler would emit around the runtime. The runtime itself is the real /repo/stdlib.
#include <stdint.h>
#ifndef SIM_ARENA
#define SIM_ARENA 4096
#endif
__attribute__((aligned(16))) static uint8_t sim_arena[SIM_ARENA];
__attribute__((aligned(16))) static const uint8_t sim_section[600] = {SIM_SECTION};
__attribute__((export_name("sim_arena_ptr"))) uint8_t *sim_arena_ptr(void) { return sim_arena; }
__attribute__((export_name("sim_arena_size"))) uint32_t sim_arena_size(void) { return SIM_ARENA; }
__attribute__((export_name("sim_section_ptr"))) const uint8_t *sim_section_ptr(void) { return sim_section; }
