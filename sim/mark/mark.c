// linked before and after the library's objects: its static data lies between
#define CAT_(a, b) a##b
#define CAT(a, b) CAT_(a, b)
char CAT(sim_lib_data_, WHERE)[8] __attribute__((aligned(8))) = {1};
char CAT(sim_lib_bss_, WHERE)[8] __attribute__((aligned(8)));
