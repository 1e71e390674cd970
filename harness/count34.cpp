// Linked into the generated project: counts the entries into each generated function.
#include <cstdio>
#include <cstdlib>
#include <map>
#define NI __attribute__((no_instrument_function))
namespace { struct Rec { void *fn; unsigned n; }; Rec *tab; unsigned cap, used; bool off; }
extern "C" {
NI void __cyg_profile_func_enter(void *fn, void *) {
    if (off) return;
    if (!tab) { cap = 1u << 18; tab = (Rec *)calloc(cap, sizeof(Rec)); }
    unsigned h = (unsigned)(((unsigned long)fn * 0x9E3779B97F4A7C15ul) >> 46) & (cap - 1);
    while (tab[h].fn && tab[h].fn != fn) h = (h + 1) & (cap - 1);
    if (!tab[h].fn) { tab[h].fn = fn; ++used; }
    ++tab[h].n;
}
NI void __cyg_profile_func_exit(void *, void *) {}
NI __attribute__((destructor)) void report34() {
    off = true;
    FILE *f = fopen(getenv("COUNT_OUT"), "w");
    for (unsigned i = 0; tab && i < cap; ++i) if (tab[i].fn) fprintf(f, "%lx %u\n", (unsigned long)tab[i].fn, tab[i].n);
    fclose(f);
}
}
